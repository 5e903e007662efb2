# -*- coding: utf-8 -*-
"""Symbolic interpreter for the Python source of the repository.

The source text is read from the repository on every run, parsed with ast and executed statement by statement;
nothing of it is transcribed or dropped.  Classes become real Python classes whose functions are IFunc objects."""
import ast
import builtins as _b
import os
import types

import z3

from .engine import eng, Unsupported, PathEnd, Restart, Signal, CUR
from .values import *      # noqa
from .values import truth, val_eq, bt, _Num, AnyError
from . import strings
from .strings import SymStr, SymBytes, mk, fmt, to_str, STR_METHODS
from .dt import TypeStub, SymDT, SymDate, SymTime, SymTD
from .loops import cut_loop, assigned_names, Poison, type_tag

REPO = os.environ.get("PV_REPO", "/repo")

BREAK, CONT = "break", "continue"


class Ret(object):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Frame(object):
    __slots__ = ("locals", "g", "parent", "names", "globs", "nonloc", "func", "mangle", "kind", "yields", "excs",
                 "cell_cls")

    def __init__(self, g, parent=None, names=None, func=None, mangle=None, kind="func"):
        self.locals = {}
        self.g = g
        self.parent = parent
        self.names = names
        self.globs = ()
        self.nonloc = ()
        self.func = func
        self.mangle = mangle
        self.kind = kind
        self.yields = None
        self.excs = []
        self.cell_cls = None

    def clone(self):
        f = Frame(self.g, self.parent, self.names, self.func, self.mangle, self.kind)
        f.locals = dict(self.locals)
        f.globs, f.nonloc, f.yields, f.excs, f.cell_cls = self.globs, self.nonloc, self.yields, list(self.excs), \
            self.cell_cls
        return f


_UNB = object()


class IFunc(object):
    def __init__(self, interp, node, fr, defaults, kwdefaults, name, qualname):
        self.interp = interp
        self.node = node
        self.fr = fr
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.__name__ = name
        self.__qualname__ = qualname
        self.__module__ = fr.g.get("__name__", "?")
        self.__doc__ = None
        self.cls = None
        self.info = func_info(node)

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def __call__(self, *args, **kwargs):
        return self.interp.call_ifunc(self, args, kwargs)

    def __repr__(self):
        return "<function %s>" % self.__qualname__

    @property
    def full(self):
        return self.__module__ + "." + self.__qualname__


class FuncInfo(object):
    __slots__ = ("names", "globs", "nonloc", "gen")


_finfo = {}


def func_info(node):
    k = id(node)
    r = _finfo.get(k)
    if r is not None and r[0] is node:
        return r[1]
    fi = FuncInfo()
    fi.globs, fi.nonloc = set(), set()
    body = node.body if isinstance(node.body, list) else [node.body]
    names = assigned_names(body, fi)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    fi.names = names - fi.globs - fi.nonloc
    fi.gen = has_yield(body)
    _finfo[k] = (node, fi)
    return fi


def has_yield(body):
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


class InstDict(object):
    """obj.__dict__ of an interpreted object"""

    def __init__(self, interp, obj):
        self.i = interp
        self.o = obj

    def update(self, *a, **k):
        if a:
            o = a[0]
            if isinstance(o, PDict):
                for en in o.entries:
                    if isinstance(en, SymMap):
                        # attributes of unknown names: a layer on top of the known ones
                        self.i.store_attr(self.o, OVERLAY, list(self.o.__dict__.get(OVERLAY, ())) + [en])
                    else:
                        self[en[0]] = en[1]
            else:
                for key, v in dict(o).items():
                    self[key] = v
        for key, v in k.items():
            self[key] = v

    def __setitem__(self, k, v):
        self.i.store_attr(self.o, conc_str(k), v)

    def __getitem__(self, k):
        r = self.get(k, OVERLAY)
        if r is OVERLAY:
            raise KeyError(k)
        return r

    def get(self, k, d=None):
        for en in reversed(self.o.__dict__.get(OVERLAY, ())):
            if isinstance(en, tuple):
                if truth(val_eq(en[0], k)):
                    return en[1]
            elif en.has(k):
                return en.get(k)
        k = strings.concretize(k)
        if isinstance(k, SymStr):
            for k2, v in self.o.__dict__.items():
                if k2 != OVERLAY and truth(val_eq(k, k2)):
                    return v
            return d
        return self.o.__dict__.get(k, d)

    def __contains__(self, k):
        return self.get(k, OVERLAY) is not OVERLAY

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def __delitem__(self, k):
        if OVERLAY in self.o.__dict__:
            raise Unsupported("removal among attributes of unknown names")
        if k not in self:
            raise KeyError(k)
        self.i.delattr(self.o, conc_str(k))

    def pop(self, k, *d):
        if k not in self:
            if d:
                return d[0]
            raise KeyError(k)
        v = self[k]
        del self[k]
        return v

    def __len__(self):
        return len(self._known())

    def __iter__(self):
        return iter(list(self._known()))

    def _known(self):
        if OVERLAY in self.o.__dict__:
            raise Unsupported("iteration over attributes of unknown names")
        return self.o.__dict__

    def items(self):
        return PList([(k, v) for k, v in self._known().items()])

    def keys(self):
        return PList(list(self._known()))

    def values(self):
        return PList(list(self._known().values()))

    def copy(self):
        return PDict.from_pairs(list(self._known().items()))


OVERLAY = "__pv_overlay__"


def conc_str(k):
    k = strings.concretize(k)
    if isinstance(k, SymStr):
        raise Unsupported("attribute named by an unknown string")
    return k


class Interp(object):
    def __init__(self, extra_modules=None):
        from . import lib
        self.lib = lib
        CUR.interp = self
        self.modules = {}
        self.stubs = lib.make_stubs(self)
        if extra_modules:
            self.stubs.update(extra_modules)
        self.builtins = lib.make_builtins(self)
        self.libnames = {}          # id of a library function or class -> its name
        self.libmods = {}
        for mn, m in self.stubs.items():
            if mn in ("logging", "enum", "abc", "typing"):
                continue
            self.libmods[id(m)] = mn
            for k, v in list(getattr(m, "__dict__", {}).items()):
                if not k.startswith("__") and (callable(v) and not isinstance(v, types.ModuleType) or isinstance(v, TypeStub)):
                    self.libnames.setdefault(id(v), mn + "." + k)
        self.libnames[id(self.builtins["open"])] = "open"
        self.contracts = {}         # full function name -> replacement (callee contract)
        self.on_call = None
        self.depth = 0
        self.line = ("harness", 0)
        self.steps = 0
        self.max_steps = 3000000
        self.cut_policy = None
        self.loop_tags = {}
        self.while_invariants = []  # invariants supplied by the harness for while loops
        self.invariants = {}        # tag of a sequence -> invariant supplied by the harness

    # ------------------------------------------------------------------------------------------- modules
    def import_module(self, name):
        if name in self.stubs:
            return self.stubs[name]
        if name in self.modules:
            return self.modules[name]
        if name == "jqtrade" or name.startswith("jqtrade."):
            return self.load_repo(name)
        root = name.split(".")[0]
        if root in self.stubs:
            m = self.stubs[root]
            for part in name.split(".")[1:]:
                m = getattr(m, part)
            return m
        return self.lib.UnknownModule(name)

    def load_repo(self, name):
        rel = name.replace(".", "/")
        path = os.path.join(REPO, rel + ".py")
        pkg = False
        if not os.path.exists(path):
            path = os.path.join(REPO, rel, "__init__.py")
            pkg = True
            if not os.path.exists(path):
                raise ModuleNotFoundError("No module named %r" % name)
        if "." in name:
            self.import_module(name.rsplit(".", 1)[0])
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rsplit(".", 1)[0]
        self.modules[name] = m
        tree, _ = parse_file(path)
        fr = Frame(m.__dict__, None, None, None, None, "module")
        fr.locals = m.__dict__
        m.__dict__["__name__"] = name
        save = self.line
        self.exec_block(tree.body, fr)
        self.line = save
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            if parent in self.modules:
                setattr(self.modules[parent], leaf, m)
        return m

    def resolve_from(self, node, fr):
        if node.level:
            pkg = fr.g.get("__package__") or fr.g["__name__"]
            parts = pkg.split(".")
            if node.level > 1:
                parts = parts[:len(parts) - (node.level - 1)]
            base = ".".join(parts)
            return base + ("." + node.module if node.module else "")
        return node.module

    # ------------------------------------------------------------------------------------------- names
    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.mangle:
            return "_" + fr.mangle.lstrip("_") + name
        return name

    def lookup(self, name, fr):
        f = fr
        if f.kind == "func" and name in f.globs:
            return self.lookup_global(name, f)
        while f is not None:
            if f.kind == "module":
                break
            if name in f.locals and (f is fr or f.kind != "class"):
                v = f.locals[name]
                if v is _UNB:
                    raise UnboundLocalError(name)
                if isinstance(v, Poison):
                    raise Unsupported("value of %s after/inside a summarised loop (%s)" % (name, v.why))
                return v
            if f is fr and f.kind in ("func",) and f.names and name in f.names:
                raise UnboundLocalError("cannot access local variable '%s'" % name)
            f = f.parent
        return self.lookup_global(name, fr)

    def lookup_global(self, name, fr):
        if name in fr.g:
            return fr.g[name]
        if name in self.builtins:
            return self.builtins[name]
        if hasattr(_b, name):
            raise Unsupported("builtin %s" % name)
        raise NameError("name '%s' is not defined" % name)

    def store(self, name, v, fr):
        f = fr
        if f.kind == "module" or name in f.globs:
            self.store_global(name, v, fr)
            return
        if name in f.nonloc:
            f = f.parent
            while f is not None and not (f.kind != "class" and (name in f.locals or (f.names and name in f.names))):
                f = f.parent
            if f is None:
                raise Unsupported("nonlocal " + name)
            old = f.locals.get(name, _UNB)
            lo = f.locals

            def undo():
                lo[name] = old

            def redo():
                lo[name] = v
            eng().write((id(lo), name), None, undo, redo)
            return
        f.locals[name] = v

    def store_global(self, name, v, fr):
        g = fr.g
        old = g.get(name, _UNB)

        def undo():
            if old is _UNB:
                g.pop(name, None)
            else:
                g[name] = old

        def redo():
            g[name] = v
        if CUR.engine is None:
            redo()
            return
        eng().write(("glob", g.get("__name__"), name), GlobObj(g, name), undo, redo)

    # ------------------------------------------------------------------------------------------- statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            r = self.exec(s, fr)
            if r is not None:
                return r
        return None

    def exec(self, s, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("interpretation step limit")
        self.line = (fr.g.get("__name__"), getattr(s, "lineno", 0))
        return getattr(self, "x_" + type(s).__name__)(s, fr)

    def x_Expr(self, s, fr):
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            self.store(t.id, self.aug(s.op, cur, self.eval(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            n = self.mangle(t.attr, fr)
            cur = self.getattr(o, n)
            self.setattr(o, n, self.aug(s.op, cur, self.eval(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_slice(t.slice, fr)
            cur = getitem(o, i)
            setitem(o, i, self.aug(s.op, cur, self.eval(s.value, fr)))
        else:
            raise Unsupported("augmented assignment target")

    def aug(self, op, a, b):
        if isinstance(a, PList) and isinstance(op, ast.Add):
            a.extend(b)
            return a
        return self.binop(op, a, b)

    def x_If(self, s, fr):
        if truth(self.eval(s.test, fr)):
            return self.exec_block(s.body, fr)
        return self.exec_block(s.orelse, fr)

    def x_Return(self, s, fr):
        return Ret(self.eval(s.value, fr) if s.value is not None else None)

    def x_Break(self, s, fr):
        return BREAK

    def x_Continue(self, s, fr):
        return CONT

    def x_Global(self, s, fr):
        fr.globs = set(fr.globs) | set(s.names)

    def x_Nonlocal(self, s, fr):
        fr.nonloc = set(fr.nonloc) | set(s.names)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in fr.locals:
                    del fr.locals[t.id]
                else:
                    raise NameError(t.id)
            elif isinstance(t, ast.Subscript):
                delitem(self.eval(t.value, fr), self.eval_slice(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, fr), self.mangle(t.attr, fr))
            else:
                raise Unsupported("del target")

    def x_Assert(self, s, fr):
        if not truth(self.eval(s.test, fr)):
            raise AssertionError(self.eval(s.msg, fr) if s.msg else "")

    def x_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, fr)
            else:
                self.store(a.name.split(".")[0], self.import_module(a.name.split(".")[0]), fr)

    def x_ImportFrom(self, s, fr):
        name = self.resolve_from(s, fr)
        m = self.import_module(name)
        for a in s.names:
            if a.name == "*":
                names = getattr(m, "__all__", None) or [k for k in vars(m) if not k.startswith("_")]
                for k in names:
                    self.store(k, getattr(m, k), fr)
                continue
            if not hasattr(m, a.name):
                try:
                    v = self.import_module(name + "." + a.name)
                except ModuleNotFoundError:
                    raise ImportError("cannot import name %r from %r" % (a.name, name))
            else:
                v = getattr(m, a.name)
            self.store(a.asname or a.name, v, fr)

    def x_FunctionDef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, fr), [f], {})
        self.store(self.mangle(s.name, fr) if fr.kind == "class" else s.name, f, fr)

    def make_func(self, node, fr, name):
        defaults = [self.eval(d, fr) for d in node.args.defaults]
        kwd = {}
        for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults):
            if d is not None:
                kwd[a.arg] = self.eval(d, fr)
        q = name
        if fr.kind == "class":
            q = fr.locals.get("__qualname__", "?") + "." + name
        elif fr.kind == "func" and fr.func is not None:
            q = fr.func.__qualname__ + ".<locals>." + name
        f = IFunc(self, node, fr, defaults, kwd, name, q)
        body = node.body if isinstance(node.body, list) else []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            f.__doc__ = body[0].value.value
        return f

    def x_ClassDef(self, s, fr):
        bases = tuple(self.eval(b, fr) for b in s.bases)
        kw = {k.arg: self.eval(k.value, fr) for k in s.keywords}
        meta = kw.pop("metaclass", None)
        rbases = []
        for b in bases:
            if isinstance(b, TypeStub):
                raise Unsupported("subclass of " + b.name)
            rbases.append(self.lib.real_base(b))
        rbases = tuple(rbases)
        if meta is None:
            meta = type
            for b in rbases:
                if issubclass(type(b), meta):
                    meta = type(b)
        ns = meta.__prepare__(s.name, rbases) if hasattr(meta, "__prepare__") else {}
        cf = Frame(fr.g, fr, None, None, s.name, "class")
        cf.locals = ns
        ns["__module__"] = fr.g.get("__name__")
        ns["__qualname__"] = s.name if fr.kind == "module" else "%s.%s" % (
            fr.func.__qualname__ + ".<locals>" if fr.func else fr.locals.get("__qualname__", ""), s.name)
        self.exec_block(s.body, cf)
        funcs = [v for v in ns.values()]
        cls = meta(s.name, rbases, ns, **kw)
        cls.__pv__ = True
        for v in funcs:
            for f in (v, getattr(v, "__func__", None), getattr(v, "fget", None), getattr(v, "fset", None)):
                if isinstance(f, IFunc):
                    f.cls = cls
        out = cls
        for d in reversed(s.decorator_list):
            out = self.call(self.eval(d, fr), [out], {})
        self.store(s.name, out, fr)

    def x_With(self, s, fr):
        return self._with(s, 0, fr)

    def _with(self, s, i, fr):
        if i == len(s.items):
            return self.exec_block(s.body, fr)
        it = s.items[i]
        cm = self.eval(it.context_expr, fr)
        t = type(cm)
        if not hasattr(t, "__enter__") or not hasattr(t, "__exit__"):
            raise Unsupported("context manager %r" % (cm,))
        v = self.call(types.MethodType(t.__enter__, cm), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        ex = types.MethodType(t.__exit__, cm)
        try:
            r = self._with(s, i + 1, fr)
        except Signal:
            raise
        except BaseException as e:
            if truth(self.call(ex, [type(e), e, None], {})):
                return None
            raise
        self.call(ex, [None, None, None], {})
        return r

    def x_Raise(self, s, fr):
        if s.exc is None:
            if not self.excstack:
                raise RuntimeError("No active exception to reraise")
            raise self.excstack[-1]
        e = self.eval(s.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, [], {})
        if not isinstance(e, BaseException):
            raise TypeError("exceptions must derive from BaseException")
        if s.cause is not None:
            c = self.eval(s.cause, fr)
            e.__cause__ = c if isinstance(c, BaseException) or c is None else None
        raise e

    excstack = []

    def x_Try(self, s, fr):
        r = None
        try:
            try:
                r = self.exec_block(s.body, fr)
            except Signal:
                raise
            except RecursionError:
                raise Unsupported("recursion limit")
            except BaseException as e:
                r = self._handle(s, e, fr)
            else:
                if r is None:
                    r = self.exec_block(s.orelse, fr)
        except Signal:
            raise
        except BaseException:
            if s.finalbody:
                r2 = self.exec_block(s.finalbody, fr)
                if r2 is not None:
                    return r2
            raise
        if s.finalbody:
            r2 = self.exec_block(s.finalbody, fr)
            if r2 is not None:
                return r2
        return r

    def _handle(self, s, e, fr):
        for h in s.handlers:
            if h.type is None:
                ok = True
            else:
                t = self.eval(h.type, fr)
                ok = exc_match(e, t)
            if ok:
                if h.name:
                    self.store(h.name, e, fr)
                self.excstack.append(e)
                depth = len(self.excstack)
                try:
                    return self.exec_block(h.body, fr)
                finally:
                    del self.excstack[depth - 1:]
                    if h.name:
                        fr.locals.pop(h.name, None) if fr.kind != "module" else fr.g.pop(h.name, None)
        raise e

    # ------------------------------------------------------------------------------------------- loops
    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)
        r = self.run_for(s, it, fr, lambda v, f: self.assign(s.target, v, f),
                         lambda f: self.exec_block(s.body, f), s.body, s.target)
        if r is BREAK:
            return None
        if r is not None:
            return r
        return self.exec_block(s.orelse, fr)

    def run_for(self, node, it, fr, bind, body, stmts, target):
        """returns None (exhausted), BREAK or Ret"""
        if isinstance(it, PList):
            # live iteration
            k = 0
            while True:
                parts = it.parts
                if k >= len(parts):
                    return None
                p = parts[k]
                k += 1
                if isinstance(p, Seg):
                    r = self.run_seg(node, p, fr, bind, body, stmts, target)
                else:
                    bind(p, fr)
                    r = body(fr)
                if r is BREAK or isinstance(r, Ret):
                    return r
                if isinstance(p, Seg) and it.parts is not parts and it.parts[:k] != parts[:k]:
                    raise Unsupported("list of unknown length changed while iterating over it")
        if isinstance(it, PIter):
            while True:
                if not it.parts:
                    return None
                p = it.parts[0]
                it._set(it.parts[1:])
                if isinstance(p, Seg):
                    r = self.run_seg(node, p, fr, bind, body, stmts, target)
                else:
                    bind(p, fr)
                    r = body(fr)
                if r is BREAK or isinstance(r, Ret):
                    return r
        src = None
        if isinstance(it, PDict):
            src = it
            it = it.keys_view()
        parts = seq_parts(it)
        n0 = len(src.entries) if src is not None else None
        for p in parts:
            if isinstance(p, Seg):
                r = self.run_seg(node, p, fr, bind, body, stmts, target)
            else:
                bind(p, fr)
                r = body(fr)
            if r is BREAK or isinstance(r, Ret):
                return r
            if src is not None and len(src.entries) != n0:
                raise RuntimeError("dictionary changed size during iteration")
        return None

    def run_seg(self, node, seg, fr, bind, body, stmts, target):
        if isinstance(seg.n, int) and seg.n <= 64:
            for k in range(seg.n):
                bind(seg.get(k), fr)
                r = body(fr)
                if r is BREAK or isinstance(r, Ret):
                    return r
            return None

        def one(k, f):
            bind(seg.get(k), f)
            return body(f)
        return cut_loop(self, node, fr, one, stmts, target, n=seg.n, tag=seg.tag, dom=seg)

    def x_While(self, s, fr):
        e = eng()
        key = ("while", fr.g.get("__name__"), s.lineno, s.col_offset)
        info = e.loops.get(key)
        if info is None and any(getattr(v, "at_once", False) and v.applies(fr) for v in self.while_invariants):
            from .loops import LoopInfo
            info = e.loops[key] = LoopInfo()
            info.cut = True
        if info is None or not getattr(info, "cut", False):
            n = 0
            while True:
                f0 = e.forks
                d0 = len(e.taken)
                c = truth(self.eval(s.test, fr))
                if not c:
                    r = None
                    break
                r = self.exec_block(s.body, fr)
                if r is BREAK or isinstance(r, Ret):
                    break
                # a loop with iterations of unknown outcome is summarised unless it ends within the first ones anyway
                if len(e.taken) != d0 and n >= 2:
                    self._mark_cut(key)
                n += 1
                if n > 5000:
                    raise Unsupported("while loop does not terminate within 5000 concrete iterations")
            if r is BREAK:
                return None
            if r is not None and r is not CONT:
                return r
            return self.exec_block(s.orelse, fr)

        if not isinstance(s.test, ast.Constant) and any(v.applies(fr) for v in self.while_invariants):
            # the harness's invariant is about the states in which an iteration starts:
            # while c: B  is  if c: while True: B; if not c: break
            if not truth(self.eval(s.test, fr)):
                return self.exec_block(s.orelse, fr)

            def turned(k, f):
                if self.plain_test(s.test, f) and not truth(self.eval(s.test, f)):
                    raise PathEnd()
                r = self.exec_block(s.body, f)
                if r is None or r is CONT:
                    return None if truth(self.eval(s.test, f)) else "over"
                return r
            r = cut_loop(self, s, fr, turned, s.body, None, n=None, tag=key, cond=lambda f: True)
            if r is BREAK:
                return None
            if r is not None and not isinstance(r, str):
                return r
            return self.exec_block(s.orelse, fr)

        def one(k, f):
            if not truth(self.eval(s.test, f)):
                return "exit"
            return self.exec_block(s.body, f)

        r = cut_loop(self, s, fr, one, s.body, None, n=None, tag=key,
                     cond=lambda f: truth(self.eval(s.test, f)))
        if r is BREAK:
            return None
        if r is not None:
            return r
        return self.exec_block(s.orelse, fr)

    def plain_test(self, t, fr):
        """evaluating the test has no effect and gives the same result again"""
        if isinstance(t, ast.UnaryOp):
            return isinstance(t.op, ast.Not) and self.plain_test(t.operand, fr)
        if isinstance(t, ast.BoolOp):
            return all(self.plain_test(x, fr) for x in t.values)
        if isinstance(t, ast.Attribute):
            if not isinstance(t.value, ast.Name):
                return False
            o = self.eval(t.value, fr)
            return t.attr in getattr(o, "__dict__", {}) and not isinstance(o, type) and \
                find_descr(type(o), t.attr) is None
        if isinstance(t, ast.Compare):
            return all(self.plain_test(x, fr) and not self.odd(self.eval(x, fr)) for x in [t.left] + t.comparators)
        if isinstance(t, ast.Call):
            return isinstance(t.func, ast.Name) and t.func.id == "len" and len(t.args) == 1 and not t.keywords and \
                self.plain_test(t.args[0], fr) and isinstance(self.eval(t.args[0], fr), (PList, PDict))
        return isinstance(t, (ast.Name, ast.Constant))

    def odd(self, v):
        """an object whose comparisons are the program's"""
        return not (v is None or isinstance(v, (bool, int, float, str, Sym, PList)) or type_tag(v))

    def _mark_cut(self, key):
        from .loops import LoopInfo
        e = eng()
        info = e.loops.get(key)
        if info is None:
            info = e.loops[key] = LoopInfo()
        if not info.cut:
            info.cut = True
            raise Restart()

    def lib_loop(self, name, parts, acc, fn):
        """a library loop (map, filter) over a sequence of unknown length"""
        node = ast.parse("for _x in _: pass").body[0]
        node.lineno, node.col_offset = self.line[1] or 0, {"map": 901, "filter": 902}.get(name, 903)
        cf = Frame({"__name__": self.line[0]}, None, None, None, None, "comp")
        cf.locals[".acc"] = acc
        for p in parts:
            if isinstance(p, Seg):
                self.run_seg(node, p, cf, lambda v, f: f.locals.__setitem__("_x", v),
                             lambda f: fn(f.locals["_x"]), [], node.target)
            else:
                fn(p)

    # ------------------------------------------------------------------------------------------- assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id if fr.kind != "class" else self.mangle(t.id, fr), v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            setitem(self.eval(t.value, fr), self.eval_slice(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, fr):
        if isinstance(v, (int, float, type(None))) and not isinstance(v, Sym):
            raise TypeError("cannot unpack non-iterable %s object" % type(v).__name__)
        if isinstance(v, _Num):
            raise TypeError("cannot unpack non-iterable number")
        parts = seq_parts(v)
        if any(isinstance(p, Seg) for p in parts):
            lst = PList(parts)
            k = len(elts)
            if not any(isinstance(x, ast.Starred) for x in elts):
                if not truth(lst.length() == k):
                    raise ValueError("not enough/too many values to unpack")
                parts = [lst.index_part(i) for i in range(k)]
            else:
                raise Unsupported("starred unpacking of unknown length")
        stars = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
        if stars:
            i = stars[0]
            after = len(elts) - i - 1
            if len(parts) < len(elts) - 1:
                raise ValueError("not enough values to unpack")
            vals = parts[:i] + [PList(parts[i:len(parts) - after])] + parts[len(parts) - after:]
            for x, y in zip(elts, vals):
                self.assign(x, y, fr)
            return
        if len(parts) != len(elts):
            raise ValueError("not enough values to unpack" if len(parts) < len(elts) else
                             "too many values to unpack")
        for x, y in zip(elts, parts):
            self.assign(x, y, fr)

    def setattr(self, o, name, v):
        if isinstance(o, (Sym, PList, PDict)) and not isinstance(o, Opaque) and type(o) in (PList, PDict):
            raise AttributeError("object has no attribute '%s'" % name)
        d = find_descr(type(o), name)
        if d is not None and hasattr(type(d), "__set__"):
            if isinstance(d, property):
                if d.fset is None:
                    raise AttributeError("property '%s' has no setter" % name)
                self.call(d.fset, [o, v], {})
                return
            type(d).__set__(d, o, v)
            return
        ss = getattr(type(o), "pv_setattr", None)
        if ss is not None:
            ss(o, name, v)
            return
        self.store_attr(o, name, v)

    def store_attr(self, o, name, v):
        if isinstance(o, types.ModuleType):
            self.store_global(name, v, Frame(o.__dict__))
            return
        if isinstance(o, type):
            old = o.__dict__.get(name, _UNB)

            def undo():
                if old is _UNB:
                    try:
                        delattr(o, name)
                    except AttributeError:
                        pass
                else:
                    setattr(o, name, old)

            def redo():
                setattr(o, name, v)
        else:
            try:
                dd = o.__dict__
            except AttributeError:
                raise AttributeError("%r object has no attribute %r" % (type(o).__name__, name))
            if OVERLAY in dd and name != OVERLAY:
                self.store_attr(o, OVERLAY, list(dd[OVERLAY]) + [(name, v)])
                return
            old = dd.get(name, _UNB)

            def undo():
                if old is _UNB:
                    dd.pop(name, None)
                else:
                    dd[name] = old

            def redo():
                dd[name] = v
        if CUR.engine is None:
            redo()
        else:
            eng().write((id(o), "attr", name), AttrLoc(o, name), undo, redo)

    def delattr(self, o, name):
        dd = o.__dict__
        if name not in dd:
            raise AttributeError(name)
        old = dd[name]
        eng().write((id(o), "attr", name), AttrLoc(o, name), lambda: dd.__setitem__(name, old),
                    lambda: dd.pop(name, None))

    # ------------------------------------------------------------------------------------------- expressions
    def eval(self, n, fr):
        return getattr(self, "e_" + type(n).__name__)(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr) if not n.id.startswith("__") else self.lookup(self.mangle(n.id, fr), fr)

    def e_Attribute(self, n, fr):
        return self.getattr(self.eval(n.value, fr), self.mangle(n.attr, fr))

    def getattr(self, o, name, *default):
        if isinstance(o, SymStr) or isinstance(o, str):
            if name in STR_METHODS and (isinstance(o, SymStr)):
                return BoundStr(o, name)
            if isinstance(o, str):
                if hasattr(str, name):
                    return BoundStr(o, name)
                if default:
                    return default[0]
                raise AttributeError("'str' object has no attribute '%s'" % name)
            if hasattr("", name):
                raise Unsupported("str.%s on unknown text" % name)
            if default:
                return default[0]
            raise AttributeError("'str' object has no attribute '%s'" % name)
        if isinstance(o, Poison):
            raise Unsupported("use of a value lost in a summarised loop (%s)" % o.why)
        if self.depth:
            if id(o) in self.libmods:
                self.note_library(self.libmods[id(o)] + "." + name)
            elif id(o) in self.libnames:
                self.note_library(self.libnames[id(o)] + "." + name)
        if isinstance(o, Opaque):
            if o.attrs is not None and name in o.attrs:
                v = o.attrs[name]
                return v() if getattr(v, "_lazy", False) else v
            if name == "__class__" and o.cls is not object:
                return o.cls
            if o.attrs is not None and o.attrs.get("*closed"):
                if default:
                    return default[0]
                raise AttributeError(name)
            raise Unsupported("attribute %s of an arbitrary object" % name)
        if name == "__dict__" and not isinstance(o, (types.ModuleType, type)) and hasattr(o, "__dict__"):
            return InstDict(self, o)
        if name == "__class__":
            return type(o) if not isinstance(o, (PList, PDict)) or type(o) not in (PList, PDict) else \
                (list if isinstance(o, PList) else dict)
        if isinstance(o, super):
            return getattr(o, name)
        if name == "sort" and isinstance(o, PList):
            from .lib import sorted_parts
            return lambda *, key=None, reverse=False: o._set(sorted_parts(self, o.parts, key, reverse))
        if name == "reverse" and isinstance(o, PList):
            from .lib import rev_seg
            return lambda: o._set([rev_seg(x) if isinstance(x, Seg) else x for x in reversed(o.parts)])
        if isinstance(o, (Sym, PList, PDict, PView, PIter)):
            if not hasattr(type(o), name) and not (hasattr(o, "__dict__") and name in o.__dict__):
                real = self.lib.real_type(o)
                if real is not None and hasattr(real, name) and name not in ("__name__", "__qualname__", "__mro__"):
                    raise Unsupported("%s.%s of a symbolic value" % (real.__name__, name))
                if default:
                    return default[0]
                raise AttributeError("'%s' object has no attribute '%s'" % (
                    real.__name__ if real else type(o).__name__, name))
        if type(getattr(o, "__dict__", None)) is dict and OVERLAY in o.__dict__:
            v = InstDict(self, o).get(name, OVERLAY)
            if v is not OVERLAY:
                return v
        try:
            v = getattr(o, name)
        except AttributeError:
            if default:
                return default[0]
            raise
        if isinstance(v, Poison):
            raise Unsupported("attribute %s after/inside a summarised loop (%s)" % (name, v.why))
        if isinstance(v, list) and not isinstance(o, (type, types.ModuleType)):
            pass
        return v

    def e_Subscript(self, n, fr):
        o = self.eval(n.value, fr)
        return getitem(o, self.eval_slice(n.slice, fr))

    def eval_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(self.eval(s.lower, fr) if s.lower else None, self.eval(s.upper, fr) if s.upper else None,
                         self.eval(s.step, fr) if s.step else None)
        return self.eval(s, fr)

    def e_Slice(self, n, fr):
        return self.eval_slice(n, fr)

    def e_Tuple(self, n, fr):
        return tuple(self._elts(n.elts, fr))

    def _elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                ps = seq_parts(self.eval(x.value, fr))
                out.extend(ps)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, n, fr):
        return self.mklist(self._elts(n.elts, fr), n)

    def mklist(self, items, n):
        l = PList(items)
        l.origin = self.line + (getattr(n, "col_offset", 0),)
        return l

    def e_Set(self, n, fr):
        return self.lib.PSet(self._elts(n.elts, fr))

    def e_Dict(self, n, fr):
        d = PDict()
        d.origin = self.line + (n.col_offset,)
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.eval(v, fr))
            else:
                kk = self.eval(k, fr)
                d.setitem(kk, self.eval(v, fr))
        return d

    def e_BoolOp(self, n, fr):
        v = None
        for x in n.values[:-1]:
            v = self.eval(x, fr)
            t = truth(v)
            if isinstance(n.op, ast.And):
                if not t:
                    return v
            elif t:
                return v
        return self.eval(n.values[-1], fr)

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            if isinstance(v, SymBool):
                return not_(v)
            return not truth(v)
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return +v
        return ~v

    def e_BinOp(self, n, fr):
        a = self.eval(n.left, fr)
        b = self.eval(n.right, fr)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        t = type(op)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("use of a value lost in a summarised loop")
        if t is ast.Mod and isinstance(a, str):
            return self.lib.percent(self, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("arithmetic on an arbitrary object")
        if t is ast.Mult and (isinstance(a, PList) or isinstance(b, PList)):
            l, k = (a, b) if isinstance(a, PList) else (b, a)
            if isinstance(k, int):
                return PList(l.parts * k)
            raise Unsupported("list * symbolic")
        if t is ast.Mult and isinstance(a, (str, SymStr)) and isinstance(b, Sym) or \
                t is ast.Mult and isinstance(b, (str, SymStr)) and isinstance(a, Sym):
            raise Unsupported("string repetition")
        f = BINOPS.get(t)
        if f is None:
            raise Unsupported("operator %s" % t.__name__)
        return f(a, b)

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        res = True
        for k, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(c, fr)
            r = self.compare(op, left, right)
            if k == len(n.ops) - 1:
                return r if res is True else r
            if not truth(r):
                return r
            left = right
        return res

    def compare(self, op, a, b):
        t = type(op)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("use of a value lost in a summarised loop")
        if t is ast.Is:
            return is_same(a, b)
        if t is ast.IsNot:
            return not_(is_same(a, b))
        if t is ast.In:
            return contains(self, b, a)
        if t is ast.NotIn:
            r = contains(self, b, a)
            return not_(r)
        if t is ast.Eq:
            return val_eq(a, b)
        if t is ast.NotEq:
            if isinstance(a, (tuple, PList, PDict)) or isinstance(b, (Sym, PList, PDict)) or isinstance(a, Sym):
                return not_(val_eq(a, b))
            return a != b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple_cmp(t, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("ordering of arbitrary objects")
        r = CMPOPS[t](a, b)
        return r

    def e_IfExp(self, n, fr):
        if truth(self.eval(n.test, fr)):
            return self.eval(n.body, fr)
        return self.eval(n.orelse, fr)

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        f = fr
        while f.kind == "comp":
            f = f.parent
        self.store(n.target.id, v, f)
        return v

    def e_Lambda(self, n, fr):
        return self.make_func(n, fr, "<lambda>")

    def e_JoinedStr(self, n, fr):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.eval(v.value, fr)
                if isinstance(x, Poison):
                    raise Unsupported("use of a value lost in a summarised loop")
                spec = self.e_JoinedStr(v.format_spec, fr) if v.format_spec is not None else ""
                out.append(fmt(x, v.conversion, spec))
        return mk(out)

    def e_FormattedValue(self, n, fr):
        return fmt(self.eval(n.value, fr), n.conversion, "")

    def e_Starred(self, n, fr):
        raise Unsupported("starred expression")

    def e_Yield(self, n, fr):
        f = fr
        while f.yields is None:
            f = f.parent
        f.yields.append(self.eval(n.value, fr) if n.value is not None else None)
        return None

    def e_YieldFrom(self, n, fr):
        f = fr
        while f.yields is None:
            f = f.parent
        f.yields.extend(self.eval(n.value, fr))
        return None

    # comprehensions
    def e_ListComp(self, n, fr):
        return self.comp(n, fr, [n.elt], lambda acc, vs: acc.append(vs[0]), PList)

    def e_GeneratorExp(self, n, fr):
        acc = self.comp(n, fr, [n.elt], lambda acc, vs: acc.append(vs[0]), PList)
        return PIter(acc.parts)

    def e_SetComp(self, n, fr):
        acc = self.comp(n, fr, [n.elt], lambda acc, vs: acc.append(vs[0]), PList)
        return self.lib.PSet(acc.parts)

    def e_DictComp(self, n, fr):
        return self.comp(n, fr, [n.key, n.value], lambda acc, vs: acc.setitem(vs[0], vs[1]), PDict)

    def comp(self, n, fr, elts, add, kind):
        acc = kind()
        acc.origin = self.line + (n.col_offset,)
        cf = Frame(fr.g, fr, None, fr.func, fr.mangle, "comp")
        cf.locals[".acc"] = acc

        def level(i, f):
            if i == len(n.generators):
                add(acc, [self.eval(e, f) for e in elts])
                return None
            g = n.generators[i]
            it = self.eval(g.iter, fr if i == 0 else f)

            def body(f2):
                for c in g.ifs:
                    if not truth(self.eval(c, f2)):
                        return None
                return level(i + 1, f2)
            self.run_for(g, it, f, lambda v, f2: self.assign(g.target, v, f2), body, [], g.target)
            return None
        level(0, cf)
        return acc

    # ------------------------------------------------------------------------------------------- calls
    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while f.func is None or f.func.cls is None:
                f = f.parent
            first = f.func.node.args.args[0].arg
            return super(f.func.cls, f.locals[first])
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals", "vars") and not n.args:
            raise Unsupported(n.func.id + "()")
        f = self.eval(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                ps = seq_parts(self.eval(a.value, fr))
                if any(isinstance(p, Seg) for p in ps):
                    ps = self.expand_star(f, ps)
                args.extend(ps)
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, PDict):
                    for en in v.entries:
                        if isinstance(en, SymMap):
                            raise Unsupported("** of a dict of unknown keys")
                        kk = conc_str(en[0])
                        if kk in kwargs:
                            raise TypeError("got multiple values for keyword argument '%s'" % kk)
                        kwargs[kk] = en[1]
                else:
                    for kk, vv in dict(v).items():
                        if kk in kwargs:
                            raise TypeError("got multiple values for keyword argument '%s'" % kk)
                        kwargs[kk] = vv
            else:
                if k.arg in kwargs:
                    raise TypeError("got multiple values for keyword argument '%s'" % k.arg)
                kwargs[k.arg] = v
        save = self.line
        try:
            return self.call(f, args, kwargs)
        finally:
            self.line = save

    def expand_star(self, f, ps):
        # *list of symbolic length: only when the callee's arity pins it down (namedtuple constructors)
        fields = getattr(f, "_fields", None)
        if fields is not None:
            l = PList(ps)
            if not truth(l.length() == len(fields)):
                raise TypeError("wrong number of arguments")
            return [l.index_part(i) for i in range(len(fields))]
        if getattr(f, "pv_star", False):
            return ps
        if isinstance(f, IFunc) and f.node.args.vararg:
            k = [i for i, p in enumerate(ps) if isinstance(p, Seg)][0]
            if k >= len(f.node.args.posonlyargs) + len(f.node.args.args):
                return ps
        raise Unsupported("* of a list of unknown length")

    def note_library(self, name):
        eng().assumed.add("library: " + name)

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if self.depth and id(f) in self.libnames:
            self.note_library(self.libnames[id(f)])
        if isinstance(f, IFunc):
            return self.call_ifunc(f, args, kwargs)
        if isinstance(f, types.MethodType):
            if isinstance(f.__func__, IFunc):
                return self.call_ifunc(f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, BoundStr):
            return f(*args, **kwargs)
        if isinstance(f, Opaque):
            if f.call is None:
                raise Unsupported("call of an arbitrary object")
            return f.call(*args, **kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if f is None or isinstance(f, (int, float, str, Sym, PList, PDict, tuple)):
            raise TypeError("'%s' object is not callable" % type(f).__name__)
        if trusted(f):
            return f(*args, **kwargs)
        fn = type(f).__dict__.get("__call__") if not isinstance(f, (types.FunctionType, types.BuiltinFunctionType,
                                                                    types.MethodType)) else None
        for c in type(f).__mro__:
            if isinstance(c.__dict__.get("__call__"), IFunc):
                return self.call_ifunc(c.__dict__["__call__"], [f] + list(args), kwargs)
        if any(is_sym(a) for a in args) or any(is_sym(a) for a in kwargs.values()):
            raise Unsupported("call of native %r with symbolic arguments" % (getattr(f, "__qualname__", f),))
        s = getattr(f, "__self__", None)
        if s is not None and is_sym(s):
            raise Unsupported("native method of a symbolic value")
        return f(*args, **kwargs)

    def instantiate(self, cls, args, kwargs):
        if cls is type:
            return self.lib.b_type(self, *args, **kwargs)
        if issubclass(cls, BaseException):
            init = find_descr(cls, "__init__")
            if isinstance(init, IFunc):
                o = cls.__new__(cls, *args)
                eng().new_serial(o)
                self.call_ifunc(init, [o] + list(args), kwargs)
                return o
            return cls(*args, **kwargs)
        if hasattr(cls, "_fields") and issubclass(cls, tuple):
            return cls(*args, **kwargs)
        import enum
        if isinstance(cls, enum.EnumMeta):
            if len(args) == 1 and isinstance(args[0], SymEnum):
                return args[0]
            if len(args) == 1 and is_sym(args[0]):
                for m in cls:
                    if truth(val_eq(args[0], m.value)):
                        return m
                raise ValueError("%s is not a valid %s" % ("value", cls.__name__))
            return cls(*args, **kwargs)
        if getattr(cls, "__pv__", False) or issubclass(cls, (PDict, PList)):
            new = find_descr(cls, "__new__")
            nf = new.__func__ if isinstance(new, staticmethod) else new
            if isinstance(nf, IFunc):
                o = self.call_ifunc(nf, [cls] + list(args), kwargs)
                if not isinstance(o, cls):
                    return o
            else:
                if issubclass(cls, PDict):
                    o = PDict.__new__(cls)
                    o.entries = []
                elif issubclass(cls, PList):
                    o = PList.__new__(cls)
                    o.parts = []
                elif issubclass(cls, (int, str, float, tuple)) or new not in (object.__new__,) and \
                        not isinstance(new, staticmethod) and new is not None and \
                        getattr(new, "__self__", object) is not object:
                    if any(is_sym(a) for a in args):
                        raise Unsupported("construction of %s" % cls.__name__)
                    return cls(*args, **kwargs)
                else:
                    if getattr(cls, "__abstractmethods__", None):
                        raise TypeError("Can't instantiate abstract class %s" % cls.__name__)
                    o = object.__new__(cls)
            eng().new_serial(o)
            init = find_descr(cls, "__init__")
            if isinstance(init, IFunc):
                r = self.call_ifunc(init, [o] + list(args), kwargs)
                if r is not None:
                    raise TypeError("__init__() should return None")
            elif init is not None and init is not object.__init__:
                init(o, *args, **kwargs)
            elif args or kwargs:
                raise TypeError("%s() takes no arguments" % cls.__name__)
            return o
        if cls.__module__.startswith("pv.") or trusted(cls) or cls is super:
            return cls(*args, **kwargs)
        if any(is_sym(a) for a in args) or any(is_sym(a) for a in kwargs.values()):
            raise Unsupported("construction of native %s from symbolic arguments" % cls.__name__)
        return cls(*args, **kwargs)

    def call_ifunc(self, f, args, kwargs):
        e = eng()
        full = f.full
        c = self.contracts.get(full)
        if c is not None:
            e.assumed.add("callee contract used for " + full)
            return c(self, list(args), dict(kwargs))
        self.depth += 1
        if self.depth > 90:
            self.depth = 0
            raise Unsupported("call depth limit (recursion)")
        if full.startswith("jqtrade"):
            e.functions.add(full)
        try:
            fr = Frame(f.fr.g, f.fr, f.info.names, f, f.cls.__name__ if f.cls is not None else f.fr.mangle, "func")
            fr.globs, fr.nonloc = f.info.globs, f.info.nonloc
            self.bind_args(f, fr, list(args), dict(kwargs))
            n = f.node
            if isinstance(n, ast.Lambda):
                return self.eval(n.body, fr)
            if f.info.gen:
                fr.yields = PList()
                fr.yields.origin = ("yields", full)
                self.exec_block(n.body, fr)
                e.assumed.add("generators of the repository are evaluated eagerly")
                return PIter(fr.yields.parts)
            r = self.exec_block(n.body, fr)
            return r.v if isinstance(r, Ret) else None
        finally:
            self.depth = max(0, self.depth - 1)

    def bind_args(self, f, fr, args, kwargs):
        a = f.node.args
        pos = a.posonlyargs + a.args
        loc = fr.locals
        npos = len(pos)
        if len(args) > npos and not a.vararg:
            raise TypeError("%s() takes %d positional arguments but %d were given" % (f.__name__, npos, len(args)))
        for p, v in zip(pos, args):
            loc[p.arg] = v
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[npos:])
        posonly = {p.arg for p in a.posonlyargs}
        extra = {}
        names = {p.arg for p in pos + a.kwonlyargs} - posonly
        for k, v in kwargs.items():
            if k in names:
                if k in loc:
                    raise TypeError("%s() got multiple values for argument '%s'" % (f.__name__, k))
                loc[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise TypeError("%s() got an unexpected keyword argument '%s'" % (f.__name__, k))
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in loc:
                j = i - (npos - nd)
                if j >= 0:
                    loc[p.arg] = f.defaults[j]
                else:
                    raise TypeError("%s() missing required argument: '%s'" % (f.__name__, p.arg))
        for p in a.kwonlyargs:
            if p.arg not in loc:
                if p.arg in f.kwdefaults:
                    loc[p.arg] = f.kwdefaults[p.arg]
                else:
                    raise TypeError("%s() missing keyword-only argument '%s'" % (f.__name__, p.arg))
        if a.kwarg:
            loc[a.kwarg.arg] = PDict.from_pairs(list(extra.items()))


class AttrLoc(object):
    __slots__ = ("o", "name")

    def __init__(self, o, name):
        self.o = o
        self.name = name


class GlobObj(object):
    __slots__ = ("g", "name")

    def __init__(self, g, name):
        self.g = g
        self.name = name


class BoundStr(object):
    def __init__(self, s, name):
        self.s = s
        self.name = name

    def __call__(self, *a, **k):
        s = self.s
        a = [strings.force(x) if isinstance(x, SymStr) and any(isinstance(p, strings.LazyStr) for p in x.parts) else x
             for x in a]
        if isinstance(s, str):
            if self.name == "join":
                return strings.join(s, *a)
            if self.name == "format":
                return format_str(s, a, k)
            if not any(is_sym(x) for x in a) and not any(is_sym(x) for x in k.values()):
                r = getattr(s, self.name)(*a, **k)
                return PList(r) if isinstance(r, list) else r
            if self.name in ("startswith", "endswith"):
                x = a[0]
                if isinstance(x, SymStr) and len(x.parts) == 1 and isinstance(x.parts[0], strings.EnumAtom):
                    return getattr(s, self.name)(strings.concretize(x))
            if self.name in STR_METHODS:
                return STR_METHODS[self.name](SymStr((s,)) if s else SymStr(()), *a, **k)
            raise Unsupported("str.%s with symbolic arguments" % self.name)
        return STR_METHODS[self.name](s, *a, **k)

    __name__ = "str method"


def format_str(s, a, k):
    import string as _string
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            if not field.isidentifier():
                raise Unsupported("format field " + field)
            raise KeyError(field)
        out.append(fmt(v, ord(conv) if conv else -1, spec or ""))
    return mk(out)


def is_sym(v):
    return isinstance(v, (Sym, PList, PDict, PView, PIter, Poison)) or (isinstance(v, tuple) and any(
        is_sym(x) for x in v)) or type(v).__name__ == "PSet"


def trusted(f):
    m = getattr(f, "__module__", None) or ""
    if m.startswith(("pv.", "contracts.", "pv_", "__main__")) or m == "pv":
        return True
    s = getattr(f, "__self__", None)
    if s is not None and not isinstance(s, types.ModuleType):
        m = getattr(type(s), "__module__", "") or ""
        if m.startswith(("pv.", "contracts.", "__main__")):
            return True
        if isinstance(s, type) and (getattr(s, "__module__", "") or "").startswith(("pv.", "contracts.")):
            return True
    m = getattr(type(f), "__module__", "") or ""
    return m.startswith(("pv.", "contracts.", "__main__"))


def exc_match(e, t):
    if isinstance(t, tuple):
        return any(exc_match(e, x) for x in t)
    if isinstance(t, type):
        return e.is_a(t) if isinstance(e, AnyError) else isinstance(e, t)
    raise Unsupported("except clause %r" % (t,))


def find_descr(t, name):
    for c in t.__mro__:
        if name in c.__dict__:
            return c.__dict__[name]
    return None


import operator as _op     # noqa

BINOPS = {ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul, ast.Div: _op.truediv, ast.FloorDiv: _op.floordiv,
          ast.Mod: _op.mod, ast.Pow: _op.pow, ast.BitAnd: _op.and_, ast.BitOr: _op.or_, ast.BitXor: _op.xor,
          ast.LShift: _op.lshift, ast.RShift: _op.rshift}
CMPOPS = {ast.Lt: _op.lt, ast.LtE: _op.le, ast.Gt: _op.gt, ast.GtE: _op.ge}


def tuple_cmp(t, a, b):
    """lexicographic comparison"""
    strict = t in (ast.Lt, ast.Gt)
    lt = t in (ast.Lt, ast.LtE)
    n = min(len(a), len(b))
    res = None
    # tail
    if lt:
        tail = len(a) < len(b) if strict else len(a) <= len(b)
    else:
        tail = len(a) > len(b) if strict else len(a) >= len(b)
    res = tail
    pairs, prefix = [], True
    for x, y in zip(a[:n], b[:n]):
        if prefix is False:
            break
        eq = val_eq(x, y)
        if eq is True:
            continue
        try:
            if isinstance(x, tuple) and isinstance(y, tuple):
                c = tuple_cmp(ast.Lt if lt else ast.Gt, x, y)
            else:
                if isinstance(x, Opaque) or isinstance(y, Opaque):
                    raise Unsupported("ordering of arbitrary objects")
                c = (x < y) if lt else (x > y)
        except (TypeError, Unsupported):
            # CPython only compares here when everything before is equal and these differ
            if eng().known(not_(and_(prefix, not_(eq)))) is not True:
                raise
            c = False
        pairs.append((c, eq))
        prefix = and_(prefix, eq)
    for c, eq in reversed(pairs):
        res = or_(c, and_(eq, res))
    return res


def is_same(a, b):
    if a is b:
        return True
    if isinstance(a, SymEnum):
        return a.is_(b)
    if isinstance(b, SymEnum):
        return b.is_(a)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a == b
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return a == b
        return False
    if isinstance(a, (PList, PDict)) or isinstance(b, (PList, PDict)):
        return False
    if isinstance(a, Sym) and isinstance(b, Sym) and type(a) is type(b):
        raise Unsupported("identity of symbolic values")
    if isinstance(a, types.MethodType) and isinstance(b, types.MethodType):
        return False
    if isinstance(a, (Sym,)) or isinstance(b, (Sym,)):
        return False
    return a is b


def contains(interp, c, x):
    if isinstance(c, (str, SymStr)):
        return strings.sym_contains(c, x) if (isinstance(c, SymStr) or isinstance(x, SymStr)) else x in c
    if isinstance(c, (tuple, list)):
        return or_(*[or_(is_id(x, p), val_eq(p, x)) for p in c])
    if isinstance(c, PList):
        res = []
        for p in c.parts:
            if isinstance(p, Seg):
                res.append(seg_any(p, lambda v: val_eq(v, x)))
            else:
                res.append(val_eq(p, x))
        return or_(*res)
    if isinstance(c, PDict):
        f = find_descr(type(c), "__contains__")
        if isinstance(f, IFunc):
            return interp.call_ifunc(f, [c, x], {})
        return c.contains(x)
    if isinstance(c, types.MappingProxyType):
        if is_sym(x):
            if not isinstance(x, SymStr):
                return False
            return or_(*[val_eq(x, k) for k in c])
        return x in c
    if isinstance(c, PView):
        return contains(interp, PList(c.view_parts()), x)
    if isinstance(c, PIter):
        return contains(interp, PList(c.take_rest()), x)
    f = find_descr(type(c), "__contains__")
    if isinstance(f, IFunc):
        return truth(interp.call_ifunc(f, [c, x], {}))
    if hasattr(c, "pv_contains"):
        return c.pv_contains(x)
    import enum
    if isinstance(c, enum.EnumMeta):
        if isinstance(x, SymEnum):
            return x.cls is c
        if is_sym(x):
            return or_(*[val_eq(x, m.value) for m in c])
        return x in c
    if is_sym(x):
        if isinstance(c, (set, frozenset, dict)):
            return or_(*[val_eq(k, x) for k in c])
        if isinstance(c, InstDict):
            return x in c
        raise Unsupported("membership test in %r" % type(c))
    if isinstance(c, Sym):
        raise TypeError("argument is not iterable")
    return x in c


def is_id(a, b):
    return a is b


def seg_any(seg, pred):
    """exists i. pred(seg[i])  (forks)"""
    e = eng()
    if isinstance(seg.n, int):
        return or_(*[pred(seg.get(i)) for i in range(seg.n)])
    if e.choose(2) == 0:
        i = fresh_int("any_" + str(seg.tag), inp=False)
        e.assume(z3.And(i.t >= 0, i.t < iterm(seg.n)))
        if not truth(pred(seg.get(i))):
            raise PathEnd()
        return True
    seg.forall(lambda s, j: z3.Implies(bt(in_range_b(j, s.n)), z3.Not(bt(pred(s.get(j))))))
    if e._check() == z3.unsat:
        raise PathEnd()
    return False


def getitem(o, i):
    if isinstance(o, Poison):
        raise Unsupported("use of a value lost in a summarised loop")
    t = type(o)
    f = find_descr(t, "__getitem__")
    if isinstance(f, IFunc):
        return f.interp.call_ifunc(f, [o, i], {})
    if isinstance(o, PDict):
        return o.getitem(i)
    if isinstance(o, (PList, tuple)) and isinstance(i, slice):
        return slice_seq(o, i)
    if isinstance(o, PList):
        if isinstance(i, (str, SymStr, float)) or i is None:
            raise TypeError("list indices must be integers or slices")
        if getattr(o, "heap", False):
            if isinstance(i, int) and i == 0:
                return CUR.interp.heap_min(o)[0]
            raise Unsupported("inspection of a heap beyond its first item")
        return o.index_part(i)
    if isinstance(o, (str, SymStr)):
        if isinstance(o, str) and not is_sym(i) and not (isinstance(i, slice) and any(
                is_sym(x) for x in (i.start, i.stop, i.step))):
            return o[i]
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported("slice step")
            return strings.sym_slice(o, i.start, i.stop)
        if isinstance(i, int):
            r = strings.sym_slice(o, i, i + 1 if i != -1 else None)
            if not truth(strings.sym_len(r) == 1 if isinstance(r, SymStr) else len(r) == 1):
                raise IndexError("string index out of range")
            return r
        raise Unsupported("symbolic string index")
    if isinstance(o, types.MappingProxyType) and is_sym(i):
        if isinstance(i, SymStr):
            for k in o:
                if truth(val_eq(i, k)):
                    return o[k]
        elif isinstance(i, (PList, PDict)):
            raise TypeError("unhashable")
        raise KeyError(i)
    if isinstance(o, dict) and is_sym(i):
        for k in o:
            if truth(val_eq(i, k)):
                return o[k]
        raise KeyError(i)
    if isinstance(o, (tuple, list)) and isinstance(i, SymInt):
        return PList(list(o)).index_part(i)
    import enum
    if isinstance(o, enum.EnumMeta) and is_sym(i):
        return getitem(o.__members__, i)
    if isinstance(o, Sym) or o is None or isinstance(o, (int, float)):
        raise TypeError("'%s' object is not subscriptable" % t.__name__)
    if isinstance(o, PView):
        raise TypeError("view is not subscriptable")
    return o[i]


def slice_seq(o, s):
    parts = list(o.parts) if isinstance(o, PList) else list(o)
    if not any(isinstance(p, Seg) for p in parts) and all(x is None or isinstance(x, int)
                                                          for x in (s.start, s.stop, s.step)):
        r = parts[s]
        return tuple(r) if isinstance(o, tuple) else PList(r)
    if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
        if s.start is None and s.stop is None and isinstance(s.step, int) and s.step == -1:
            from .lib import rev_seg
            return PList([rev_seg(p) if isinstance(p, Seg) else p for p in reversed(parts)])
        raise Unsupported("slice step on unknown length")
    if s.start is None and s.stop is None:
        return PList(parts)
    if s.stop is None and isinstance(s.start, int) and s.start >= 0:
        k = s.start
        while k and parts and not isinstance(parts[0], Seg):
            parts.pop(0)
            k -= 1
        if k == 0:
            return PList(parts)
    if s.start in (None, 0) and isinstance(s.stop, int) and s.stop < 0:
        k = -s.stop
        while k and parts and not isinstance(parts[-1], Seg):
            parts.pop()
            k -= 1
        if k == 0:
            return PList(parts)
    if len(parts) == 1 and isinstance(parts[0], Seg):
        from .values import shift_seg
        seg = parts[0]
        n = iterm(seg.n)

        def norm(v, d):
            if v is None:
                return d
            t = iterm(v)
            t = z3.If(t < 0, z3.If(n + t < 0, z3.IntVal(0), n + t), z3.If(t > n, n, t))
            return t
        a, b = norm(s.start, z3.IntVal(0)), norm(s.stop, n)
        ln = mkint(z3.If(b > a, b - a, z3.IntVal(0)))
        return PList([shift_seg(seg, mkint(a), ln)])
    raise Unsupported("slice of a list of unknown length")


def setitem(o, i, v):
    f = find_descr(type(o), "__setitem__")
    if isinstance(f, IFunc):
        return f.interp.call_ifunc(f, [o, i, v], {})
    if isinstance(o, PDict):
        o.setitem(i, v)
        return
    if isinstance(o, PList):
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                o._set(seq_parts(v))
                return
            o.require_concrete("slice assignment")
            p = list(o.parts)
            p[i] = seq_parts(v)
            o._set(p)
            return
        if isinstance(i, int) and o.concrete():
            p = list(o.parts)
            p[i] = v
            o._set(p)
            return
        raise Unsupported("item assignment in a list of unknown length")
    if isinstance(o, tuple) or isinstance(o, (Sym, str)):
        raise TypeError("object does not support item assignment")
    if isinstance(o, (InstDict,)) or trusted(type(o)):
        o[i] = v
        return
    if isinstance(o, (dict, list)):
        if is_sym(i):
            raise Unsupported("symbolic key in a native container")
        had = isinstance(o, list) or i in o
        old = o[i] if had else None

        def undo():
            if had:
                o[i] = old
            else:
                o.pop(i, None)
        if CUR.engine is None:
            o[i] = v
        else:
            eng().write((id(o), "item"), o, undo, lambda: o.__setitem__(i, v))
        return
    o[i] = v


def delitem(o, i):
    f = find_descr(type(o), "__delitem__")
    if isinstance(f, IFunc):
        return f.interp.call_ifunc(f, [o, i], {})
    if isinstance(o, PDict):
        o.delitem(i)
        return
    if isinstance(o, PList):
        if isinstance(i, slice):
            if i.start is None and i.stop is None:
                o._set([])
                return
            o.require_concrete("del slice")
            p = list(o.parts)
            del p[i]
            o._set(p)
            return
        if isinstance(i, int) and (o.concrete() or i in (0, -1)):
            o.pop(i)
            return
    raise Unsupported("del of %r" % (type(o),))


_parsed = {}


def parse_file(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    r = _parsed.get(k)
    if r is None:
        with open(path, "rb") as f:
            src = f.read()
        r = _parsed[k] = (ast.parse(src, path), src)
    return r
