# -*- coding: utf-8 -*-
"""Path-exploring verification-condition engine.

The repository's functions are executed symbolically by interp.py; this module keeps the path condition,
explores every feasible path by depth-first re-execution, generates the obligations (postconditions, invariants,
frame conditions) and has them discharged by z3 (cvc5 as a second opinion when z3 gives no answer).
"""
import os
import subprocess
import tempfile
import time

import z3


class Signal(BaseException):
    """control signals of the engine; interpreted code can never catch them"""


class PathEnd(Signal):
    pass


class Restart(Signal):
    pass


class Unsupported(Signal):
    pass


class OutOfTime(Signal):
    pass


def is_true(t):
    return z3.is_true(t)


def is_false(t):
    return z3.is_false(t)


class Obligation(object):
    __slots__ = ("name", "status", "count", "backend", "time", "model", "detail", "vacuous")

    def __init__(self, name):
        self.name = name
        self.status = "discharged"
        self.count = 0
        self.backend = {}
        self.time = 0.0
        self.model = None
        self.detail = ""


class Engine(object):
    def late(self):
        cpu, wall = self.deadline       # processor time of this process, so that a loaded machine decides the same
        return time.process_time() > cpu or time.time() > wall

    def __init__(self, name, max_paths=20000, deadline=None, solver_ms=8000, cross=False):
        self.name = name
        self.max_paths = max_paths
        self.deadline = deadline
        self.solver_ms = solver_ms
        self.cross = cross              # thorough: every obligation is also sent to cvc5
        self.obligations = {}
        self.covers = {}
        self.problems = []              # unsupported / undischarged
        self.assumed = set()
        self.functions = set()
        self.loops = {}                 # key -> LoopInfo, survives restarts
        self.paths = 0
        self.forks = 0
        self.checks = 0
        self.solver_time = 0.0
        self.restarts = 0
        self.stats = {"z3": 0, "cvc5": 0, "trivial": 0, "cvc5-cross": 0}

    # ---------------------------------------------------------------- exploration
    def explore(self, fn):
        for attempt in range(200):
            try:
                self._explore(fn)
                return
            except Restart:
                self.restarts += 1
                continue
        self.problems.append(("restarts", "loop summary did not reach a fixpoint"))

    def _explore(self, fn):
        stack = [[]]
        self.obligations = {}
        self.covers = {}
        self.problems = []
        self.paths = 0
        while stack:
            if self.deadline and self.late():
                self.problems.append(("deadline", "time limit reached with %d paths left" % len(stack)))
                return
            if self.paths >= self.max_paths:
                self.problems.append(("paths", "path limit reached"))
                return
            prefix = stack.pop()
            self._begin(prefix, stack)
            self.paths += 1
            try:
                fn()
            except PathEnd:
                pass
            except Unsupported as e:
                if self.paths == 1 or str(e) not in [p[1] for p in self.problems]:
                    self.problems.append(("unsupported", str(e)))
            except OutOfTime:
                self.problems.append(("deadline", "time limit reached"))
                return
            finally:
                CUR.engine = None

    def _begin(self, prefix, stack):
        CUR.engine = self
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.stack = stack
        self.solver = z3.Solver()
        self.solver.set("timeout", self.solver_ms)
        self.pc = []
        self.fresh_n = {}
        self.inputs = {}
        self.rewound = set()            # entries of the log that are undone for the moment
        self.log = []                   # heap write log: (lockey, undo, redo)
        self.serial = 0
        self.births = {}
        self.keep = []
        self.cond_cache = {}
        self.universals = []            # instantiation hooks
        self.labels = []
        self.ghost = {}
        self.loop_depth = 0
        self.loop_stack = []
        self.quiet = 0

    # ---------------------------------------------------------------- terms
    def fresh_name(self, base):
        k = self.fresh_n.get(base, 0)
        self.fresh_n[base] = k + 1
        return base if k == 0 else "%s!%d" % (base, k)

    def assume(self, cond):
        """assume a z3 Bool (or python bool)"""
        t = to_bool_term(cond)
        if t is True or is_true(t):
            return
        if t is False or is_false(t):
            raise PathEnd()
        self.pc.append(t)
        self.solver.add(t)
        self._decided(t)
        if not self.replaying():
            if self._check() == z3.unsat:
                raise PathEnd()

    def _decided(self, t):
        """a condition assumed needs no solver when it is branched on"""
        if z3.is_and(t):
            for c in t.children():
                self._decided(c)
            return
        t = z3.simplify(t)
        val = True
        if z3.is_not(t):
            t, val = t.children()[0], False
        self.cond_cache.setdefault(t.get_id(), (t, val))

    def add_fact(self, t):
        """add a fact without a feasibility check"""
        t = to_bool_term(t)
        if t is True or is_true(t):
            return
        if t is False:
            t = z3.BoolVal(False)
        self.pc.append(t)
        self.solver.add(t)

    def known(self, t):
        """does the path condition imply t?  (no decision is recorded; deterministic apart from solver timeouts)"""
        t = to_bool_term(t)
        if t is True or t is False:
            return t
        t = z3.simplify(t)
        if is_true(t):
            return True
        if is_false(t):
            return False
        return self._check(z3.Not(t)) == z3.unsat

    def replaying(self):
        return self.pos < len(self.prefix)

    def _check(self, *extra):
        if self.deadline and self.late():
            raise OutOfTime()
        self.checks += 1
        t0 = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t0
        return r

    # ---------------------------------------------------------------- decisions
    def branch(self, cond):
        t = to_bool_term(cond)
        if t is True or t is False:
            return t
        t = z3.simplify(t)
        if is_true(t):
            return True
        if is_false(t):
            return False
        key = t.get_id()
        if key in self.cond_cache:
            return self.cond_cache[key][1]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            # forced decisions are recorded too, so the prefix alone determines the path
            val = d in (1, 3)
        else:
            st = self._check(t)
            sf = self._check(z3.Not(t))
            if st == z3.unsat and sf == z3.unsat:
                raise PathEnd()
            if st == z3.unsat:
                d = 2           # forced false
            elif sf == z3.unsat:
                d = 3           # forced true
            else:
                d = 1
                self.forks += 1
                self.stack.append(self.taken + [0])
            self.pos += 1
            self.prefix = self.taken + [d]
            self.taken.append(d)
            self.pos = len(self.taken)
            val = d in (1, 3)
        c = t if val else z3.Not(t)
        if d in (0, 1):
            self.pc.append(c)
            self.solver.add(c)
        self.cond_cache[key] = (t, val)
        nt = z3.simplify(z3.Not(t))
        self.cond_cache[nt.get_id()] = (nt, not val)
        return val

    def choose(self, n, label=""):
        """nondeterministic choice 0..n-1, all explored"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            return d - 100
        for k in range(n - 1, 0, -1):
            self.stack.append(self.taken + [100 + k])
        self.prefix = self.taken + [100]
        self.taken.append(100)
        self.pos = len(self.taken)
        self.forks += n - 1
        return 0

    # ---------------------------------------------------------------- obligations
    def cover(self, label):
        """this point is reachable (checked: the path condition is satisfiable)"""
        if self.quiet or self.replaying():
            return
        if not self.covers.get(label):
            r = self._check()
            if r == z3.unsat:
                return
            if r == z3.unknown:
                self.covers.setdefault(label, 0)
                self.problems.append(("cover-unknown", label))
        self.covers[label] = self.covers.get(label, 0) + 1

    def prove(self, name, cond, detail=""):
        t = to_bool_term(cond)
        if self.quiet:
            return True
        ob = self.obligations.get(name)
        if ob is None:
            ob = self.obligations[name] = Obligation(name)
        if self.replaying():
            # the same obligation under the same decisions was generated by the path this one was forked from
            self._assume_after(t)
            return True
        ob.count += 1
        if t is True or (t is not False and is_true(z3.simplify(t))):
            self.stats["trivial"] += 1
            return True
        if t is False:
            t = z3.BoolVal(False)
        t0 = time.time()
        self.solver.push()
        self.solver.add(z3.Not(t))
        r = self._check()
        backend = "z3"
        if r == z3.unknown and self._linear_unsat(z3.Not(t)):
            r = z3.unsat
        if r == z3.unknown:
            r2 = self._cvc5()
            if r2 is not None:
                r, backend = r2, "cvc5"
        elif self.cross:
            r2 = self._cvc5()
            if r2 is not None:
                self.stats["cvc5-cross"] += 1
                if r2 != r:
                    self.problems.append(("backends-disagree", name))
        ok = r == z3.unsat
        if not ok:
            model = None
            if r == z3.sat and backend == "z3":
                model = self._model()
            if ob.status == "discharged" or (ob.status == "undischarged" and r == z3.sat):
                ob.status = "failed" if r == z3.sat else "undischarged"
                ob.model = model
                ob.detail = detail
        self.solver.pop()
        dt = time.time() - t0
        ob.time += dt
        ob.backend[backend] = ob.backend.get(backend, 0) + 1
        self.stats[backend] += 1
        self._assume_after(t)
        return ok

    def _linear_unsat(self, extra):
        """unsatisfiable even if every product of unknowns is replaced by an unknown of its own"""
        memo, prods, keep = {}, {}, []

        def walk(x):
            i = x.get_id()
            if i in memo:
                return memo[i]
            keep.append(x)
            if not z3.is_app(x) or x.num_args() == 0:
                r = x
            else:
                a = [walk(c) for c in x.children()]
                r = x.decl()(*a) if x.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR) else {
                    z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product, z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or}[
                        x.decl().kind()](*a)
                if x.decl().kind() == z3.Z3_OP_MUL:
                    nums = [c for c in a if z3.is_int_value(c) or z3.is_rational_value(c)]
                    rest = sorted((c for c in a if not (z3.is_int_value(c) or z3.is_rational_value(c))), key=lambda c: c.get_id())
                    if len(rest) > 1:
                        key = tuple(c.get_id() for c in rest)
                        if key not in prods:
                            keep.extend(rest)
                            prods[key] = z3.FreshConst(x.sort(), "prod")
                        r = z3.Product(*(nums + [prods[key]])) if nums else prods[key]
            memo[i] = r
            keep.append(r)
            return r
        s = z3.Solver()
        s.set("timeout", int(self.solver_ms))
        try:
            for f in self.pc + [extra]:
                s.add(walk(z3.simplify(f, som=True)))
        except z3.Z3Exception:
            return False
        if not prods:
            return False
        t0 = time.time()
        r = s.check()
        self.solver_time += time.time() - t0
        return r == z3.unsat

    def _assume_after(self, t):
        if t is True:
            return
        if t is False or is_false(t):
            raise PathEnd()
        self.pc.append(t)
        self.solver.add(t)

    def fail(self, name, detail=""):
        """an obligation that is violated whenever this point is reachable"""
        self.prove(name, z3.BoolVal(False), detail)

    def _model(self):
        try:
            m = self.solver.model()
        except z3.Z3Exception:
            return None
        out = {}
        for k, term in self.inputs.items():
            try:
                v = m.eval(term, model_completion=True)
                if z3.is_int_value(v):
                    out[k] = v.as_long()
                elif z3.is_string_value(v):
                    out[k] = z3str(v)
                elif z3.is_rational_value(v):
                    out[k] = float(v.as_fraction())
                elif z3.is_true(v) or z3.is_false(v):
                    out[k] = z3.is_true(v)
                else:
                    out[k] = str(v)[:200]
            except z3.Z3Exception:
                pass
        return out

    def _cvc5(self):
        try:
            smt = "(set-logic ALL)\n" + self.solver.to_smt2()
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(smt)
            t0 = time.time()
            try:
                p = subprocess.run(["cvc5", "--strings-exp", "--tlimit=%d" % self.solver_ms, f.name],
                                   capture_output=True, text=True, timeout=self.solver_ms / 1000 + 5)
            finally:
                os.unlink(f.name)
            self.solver_time += time.time() - t0
            out = p.stdout.strip().split("\n")[0]
            if out == "unsat":
                return z3.unsat
            if out == "sat":
                return z3.sat
        except (OSError, subprocess.SubprocessError):
            pass
        return None

    # ---------------------------------------------------------------- heap log
    def new_serial(self, obj=None):
        self.serial += 1
        if obj is not None:
            self.births[id(obj)] = self.serial
            self.keep.append(obj)
        return self.serial

    def birth(self, obj):
        return self.births.get(id(obj), 0)

    def write(self, key, obj, undo, redo):
        """perform redo() and log it; key identifies the location (object + field)"""
        redo()
        self.log.append((key, obj, undo, redo))

    def rewind(self, pos):
        """undo every write after log position pos and return them (for replay_log)"""
        tail = self.log[pos:]
        for _, _, undo, _ in reversed(tail):
            undo()
        del self.log[pos:]
        return tail

    def reapply(self, tail):
        for key, obj, undo, redo in tail:
            redo()
            self.log.append((key, obj, undo, redo))

    # ---------------------------------------------------------------- results
    def result(self):
        bad = [o for o in self.obligations.values() if o.status != "discharged"]
        return {
            "name": self.name,
            "obligations": sum(1 for o in self.obligations.values()),
            "vcs": sum(o.count for o in self.obligations.values()),
            "discharged": sum(1 for o in self.obligations.values() if o.status == "discharged"),
            "failed": [{"name": o.name, "status": o.status, "model": o.model, "detail": o.detail} for o in bad],
            "problems": sorted(set("%s: %s" % p for p in self.problems)),
            "covers": self.covers,
            "paths": self.paths,
            "restarts": self.restarts,
            "solver_s": round(self.solver_time, 3),
            "backends": self.stats,
            "functions": sorted(self.functions),
            "assumed": sorted(self.assumed),
        }


def z3str(v):
    import re
    s = v.as_string()
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


class _Cur(object):
    engine = None


CUR = _Cur()


def eng():
    e = CUR.engine
    if e is None:
        raise RuntimeError("no engine active")
    return e


def to_bool_term(c):
    if c is True or c is False:
        return c
    if isinstance(c, z3.BoolRef):
        return c
    t = getattr(c, "t", None)
    if isinstance(t, z3.BoolRef):
        return t
    if isinstance(c, bool):
        return bool(c)
    raise Unsupported("not a boolean condition: %r" % (c,))
