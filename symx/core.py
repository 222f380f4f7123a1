"""Bounded symbolic execution engine: path exploration and symbolic values.

The code under analysis runs natively in CPython; symbolic inputs are proxy
objects over z3 terms.  Every branch on a proxy asks the solver which sides are
feasible and the engine explores all of them (depth first, by re-execution).
An assertion on a path is decided by one query: path condition AND NOT property.
"""
import itertools
import signal
import struct
import time as _time

import z3


class Control(BaseException):
    """Engine control flow; never caught by `except Exception` in the code under test."""


class Infeasible(Control):
    pass


class Pruned(Control):
    """The path was cut (concretisation budget, decision limit): coverage is incomplete."""


class Unsupported(Control):
    pass


class PathTimeout(Control):
    pass


ENG = None


def eng():
    return ENG


class VFS(dict):
    """Files of a path: path -> {chunks, gz, mtime (microseconds), dir}; paths with symbolic characters in `sym`."""
    def __init__(self):
        dict.__init__(self)
        self.sym = []

    def find(self, path):
        """The entry under the path, or None."""
        if isinstance(path, str):
            e = self.get(path)
            if e is not None:
                return e
            for k, e in self.sym:
                if k == path:
                    return e
            return None
        for k, e in self.sym + [(k, e) for k, e in self.items()]:
            if path == k:
                return e
        return None

    def store(self, path, entry):
        if isinstance(path, str):
            self[path] = entry
        else:
            self.sym.append((path, entry))

    def drop(self, path):
        if isinstance(path, str) and path in self:
            del self[path]
            return True
        for i, (k, e) in enumerate(self.sym):
            if path == k:
                del self.sym[i]
                return True
        for k in list(self):
            if not isinstance(path, str) and path == k:
                del self[k]
                return True
        return False


class Engine:
    def __init__(self, seed=1, query_ms=20000, max_decisions=4000, path_seconds=60, conc_k=3):
        self.seed = seed
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.solver.set("random_seed", seed % 1000)
        self.trail = []            # [expr, outcome, other_side_done]
        self.pos = 0
        self.replay_len = 0
        self.max_decisions = max_decisions
        self.path_seconds = path_seconds
        self.conc_k = conc_k
        self.stats = dict(paths=0, decisions=0, queries=0, solver_s=0.0, obligations=0,
                          discharged=0, discharged_by_path=0, infeasible=0, pruned=0,
                          unsupported=0, unknown=0, concretised=0, timeouts=0)
        self.functions = set()
        self.counter = 0
        self.model = None
        self.inputs = []           # ordered (name, kind, sym)
        self.observations = []
        self.candidates = []
        self.witnesses = []
        self.incomplete = []
        self.vfs = VFS()
        self.hooks = {}
        self.importing = 0
        self.float_fuzzy = False
        import random
        self.rnd = random.Random(seed)

    # ------------------------------------------------------------ solver
    def _check(self, *extra):
        t = _time.time()
        r = self.solver.check(*extra)
        self.stats["queries"] += 1
        self.stats["solver_s"] += _time.time() - t
        return r

    def _sat_with(self, expr):
        """Is path condition AND expr satisfiable?  Keeps a model on success."""
        if self.model is not None:
            try:
                v = self.model.eval(expr, model_completion=True)
                if z3.is_true(v):
                    return True
            except z3.Z3Exception:
                pass
        self.solver.push()
        self.solver.add(expr)
        r = self._check()
        m = None
        if r == z3.sat:
            m = self.solver.model()
        self.solver.pop()
        if r == z3.sat:
            self.model = m
            return True
        if r == z3.unsat:
            return False
        self.stats["unknown"] += 1
        self.incomplete.append("solver unknown on a branch")
        return True                # over-approximate

    # ------------------------------------------------------------ decisions
    def decide(self, expr):
        if expr is True or expr is False:
            return expr
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        if self.pos < len(self.trail):
            rec = self.trail[self.pos]
            self.pos += 1
            return rec[1]
        if len(self.trail) >= self.max_decisions:
            raise Pruned("decision limit")
        self.stats["decisions"] += 1
        notexpr = z3.Not(expr)
        t = self._sat_with(expr)
        tm = self.model if t else None
        f = self._sat_with(notexpr)
        if not t and not f:
            raise Infeasible()
        if t:
            outcome, done = True, not f
            self.model = tm
        else:
            outcome, done = False, True
        self.trail.append([expr, outcome, done])
        self.pos += 1
        self.solver.push()
        self.solver.add(expr if outcome else notexpr)
        return outcome

    def add(self, expr):
        """Constrain the current path (assumption / definition)."""
        if expr is True or z3.is_true(expr):
            return
        if self.pos < self.replay_len:
            return                 # replaying: already in the solver
        if expr is False:
            expr = z3.BoolVal(False)
        self.solver.add(expr)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(expr, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def assume(self, expr):
        if isinstance(expr, SymBool):
            expr = expr.e
        if expr is True or expr is False:
            if not expr:
                raise Infeasible()
            return
        if self.pos < self.replay_len:
            return
        self.add(expr)
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.sat:
                self.model = self.solver.model()
            else:
                self.stats["unknown"] += 1

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                self.stats["unknown"] += 1
                raise Unsupported("solver unknown")
            self.model = self.solver.model()
        return self.model

    def fresh(self, prefix, sort="int"):
        self.counter += 1
        n = "%s!%d" % (prefix, self.counter)
        if sort == "int":
            return z3.Int(n)
        if sort == "bool":
            return z3.Bool(n)
        if sort == "fp":
            return z3.FP(n, z3.Float64())
        raise ValueError(sort)

    def pick(self, expr, values):
        """Fork over the concrete values an Int term may take."""
        values = list(values)
        for v in values[:-1]:
            if self.decide(expr == v):
                return v
        if not values:
            raise Infeasible()
        self.assume(expr == values[-1])
        return values[-1]

    # ------------------------------------------------------------ exploration
    def explore(self, fn, deadline=None, want_witnesses=6):
        """fn(engine) runs one path.  Returns True when every path was explored."""
        global ENG
        ENG = self
        old = signal.signal(signal.SIGALRM, self._alarm)
        exhausted = False
        try:
            while True:
                if deadline and _time.time() > deadline:
                    self.incomplete.append("time limit")
                    break
                self._run_path(fn, want_witnesses)
                # backtrack
                while self.trail and self.trail[-1][2]:
                    self.trail.pop()
                    self.solver.pop()
                if not self.trail:
                    exhausted = True
                    break
                rec = self.trail[-1]
                self.solver.pop()
                rec[1] = not rec[1]
                rec[2] = True
                self.solver.push()
                self.solver.add(rec[0] if rec[1] else z3.Not(rec[0]))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            ENG = None
        self.exhausted = exhausted and not self.incomplete
        return self.exhausted

    def _alarm(self, *_):
        raise PathTimeout()

    def _run_path(self, fn, want_witnesses):
        self.pos = 0
        self.replay_len = len(self.trail)
        self.counter = 0
        self.inputs = []
        self.observations = []
        self.vfs = VFS()
        self.hooks = {}
        self.importing = 0
        self.float_fuzzy = False
        self.model = None
        self.path_checks = 0
        if self.replay_len:
            # after the replayed prefix the model must be recomputed
            pass
        else:
            # base scope: constraints added before any decision live here
            self.solver.reset()
        signal.alarm(self.path_seconds)
        try:
            fn(self)
            signal.alarm(0)
            self.stats["paths"] += 1
            n = self.stats["paths"]
            if self.path_checks and (n <= 2 or n & (n - 1) == 0) and len(self.witnesses) < want_witnesses:
                self._witness()
        except Infeasible:
            self.stats["infeasible"] += 1
        except Pruned as e:
            self.stats["pruned"] += 1
            self.incomplete.append("pruned: %s" % e)
        except Unsupported as e:
            self.stats["unsupported"] += 1
            self.incomplete.append("unsupported: %s" % e)
            self._candidate("engine-unsupported", "inconclusive: %s" % e, soft=True)
        except PathTimeout:
            self.stats["timeouts"] += 1
            self.incomplete.append("path time limit")
            self._candidate("path-timeout", "the path did not finish", soft=True)
        except Control:
            raise
        finally:
            signal.alarm(0)

    def _witness(self):
        try:
            m = self.get_model()
            self.witnesses.append(dict(inputs=self.extract(m),
                                       observed=[[n, self.value_of(v, m)] for n, v in self.observations]))
        except (Control, z3.Z3Exception) as e:
            self.stats["unknown"] += 1

    # ------------------------------------------------------------ assertions
    def check(self, cond, msg):
        self.path_checks += 1
        if isinstance(cond, Sym) and not isinstance(cond, SymBool):
            cond = bool(cond)
        expr = cond.e if isinstance(cond, SymBool) else bool(cond)
        if self.pos < self.replay_len:
            return                 # decided when this prefix was first explored
        self.stats["obligations"] += 1
        if expr is True:
            self.stats["discharged"] += 1
            self.stats["discharged_by_path"] += 1
            return
        if expr is False:
            self._candidate(msg, "assertion")
            raise Infeasible()
        self.solver.push()
        self.solver.add(z3.Not(expr))
        r = self._check()
        m = self.solver.model() if r == z3.sat else None
        if r == z3.sat:
            self._candidate(msg, "assertion", model=m)
        self.solver.pop()
        if r == z3.unsat:
            self.stats["discharged"] += 1
            return
        if r != z3.sat:
            self.stats["unknown"] += 1
            self.incomplete.append("solver unknown on: " + msg)
            return
        self.assume(expr)

    def failed(self, msg):
        """An exception escaped the code under test on this path."""
        self.stats["obligations"] += 1
        self._candidate(msg, "exception", soft=True)

    def _candidate(self, msg, kind, model=None, soft=False):
        same = [c for c in self.candidates if c["msg"] == msg]
        if len(same) >= 4:
            return
        try:
            m = model if model is not None else self.get_model()
            inputs = self.extract(m)
        except Control:
            return
        self.candidates.append(dict(msg=msg, kind=kind, soft=soft, inputs=inputs,
                                    fuzzy=self.float_fuzzy))
        if self.float_fuzzy and kind == "assertion" and not same:
            # the rounding of machine doubles is over-approximated: offer more inputs to the replay
            for k in range(24):
                self.solver.push()
                for n, kd, v in self.inputs:
                    t = getattr(v, "e", None)
                    ts = [t] if t is not None and kd == "int" else [x for x in getattr(v, "_t", ())
                                                                 if not isinstance(x, int)]
                    for x in ts:
                        self.solver.add(z3.Or(x % 11 == self.rnd.randrange(11), x % 11 == self.rnd.randrange(11),
                                              x % 7 == self.rnd.randrange(7)))
                if self._check() == z3.sat:
                    self.candidates.append(dict(msg=msg, kind=kind, soft=soft, fuzzy=True,
                                                inputs=self.extract(self.solver.model())))
                self.solver.pop()

    # ------------------------------------------------------------ models
    def extract(self, m):
        return {n: self.value_of(v, m) for n, k, v in self.inputs}

    def value_of(self, v, m):
        if isinstance(v, Sym):
            return v.in_model(m)
        if isinstance(v, (list, tuple)):
            return [self.value_of(x, m) for x in v]
        if isinstance(v, (str, int, bool, type(None))):
            return v
        if isinstance(v, float):
            return {"float": v.hex() if v == v and abs(v) != float("inf") else repr(v)}
        if hasattr(v, "sx_in_model"):
            return v.sx_in_model(m, self)
        if isinstance(v, dict) or type(v).__name__ == "SDict":
            return [[self.value_of(k, m), self.value_of(x, m)] for k, x in v.items()]
        return {"repr": type(v).__name__}

    def concretise(self, sym, k=None):
        """Fallback at a native boundary: enumerate a few model values of `sym`."""
        self.stats["concretised"] += 1
        k = k or self.conc_k
        for i in range(k):
            if self.pos < self.replay_len:
                # replaying: the recorded decision carries the value in its tag
                rec = self.trail[self.pos]
                v = rec[3] if len(rec) > 3 else None
                if self.decide(rec[0]):
                    return v
                continue
            v = sym.py_value(self.get_model())
            e = sym.equals_value(v)
            n = len(self.trail)
            got = self.decide(e)
            if len(self.trail) > n:
                self.trail[-1].append(v)
            if got:
                return v
        raise Pruned("value enumeration at a native call")


def mkbool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class Sym:
    __slots__ = ()

    def __hash__(self):
        raise Unsupported("native hash of a symbolic value")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _b(x):
    """z3 Bool of a bool-like value."""
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


def And(*xs):
    es = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        es.append(x)
    if not es:
        return True
    return es[0] if len(es) == 1 else z3.And(*es)


def Or(*xs):
    es = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        es.append(x)
    if not es:
        return False
    return es[0] if len(es) == 1 else z3.Or(*es)


def Not(x):
    if x is True:
        return False
    if x is False:
        return True
    return z3.Not(x)


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.decide(self.e)

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(self.e == _b(o))
        if isinstance(o, (int, float, SymInt, SymFloat)):
            return self._i() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    __hash__ = Sym.__hash__

    def _i(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(And(self.e, o.e if isinstance(o, SymBool) else o))
        return self._i() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(Or(self.e, o.e if isinstance(o, SymBool) else o))
        return self._i() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Xor(self.e, _b(o)))
        return NotImplemented

    __rxor__ = __xor__

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __neg__(self): return -self._i()

    def in_model(self, m):
        return z3.is_true(m.eval(self.e, model_completion=True))

    py_value = in_model

    def equals_value(self, v):
        return self.e if v else z3.Not(self.e)

    def __repr__(self):
        return "SymBool(%s)" % self.e

    def __format__(self, spec):
        raise Unsupported("format of a symbolic bool")


def snot(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.e))
    return not x


def sand(*xs):
    out = True
    for x in xs:
        if isinstance(x, SymBool):
            out = x.e if out is True else z3.And(out, x.e)
        elif not x:
            return False
    return mkbool(out)


def sor(*xs):
    out = False
    for x in xs:
        if isinstance(x, SymBool):
            out = x.e if out is False else z3.Or(out, x.e)
        elif x:
            return True
    return mkbool(out)


def ie(x):
    """z3 Int expression or python int of an int-like value (None if not int-like)."""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return x._i().e
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    return None


def mkint(e):
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


class SymInt(Sym):
    """Mathematical integer, like Python's int."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _cmp(self, o, op):
        x = ie(o)
        if x is not None:
            return mkbool(op(self.e, x))
        if isinstance(o, float):
            if o != o:
                return False
            if o in (float("inf"), float("-inf")):
                return op(0, o)
            r = z3.ToReal(self.e)
            n, d = o.as_integer_ratio()
            return mkbool(op(r * d, z3.RealVal(n)))
        if isinstance(o, SymIntFloat):
            return mkbool(op(self.e, o.n))
        if isinstance(o, SymFloat):
            return op(o._from_int(self), o)
        if isinstance(o, SymRat):
            return mkbool(op(self.e * o.d, o.n))
        return NotImplemented

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    __hash__ = Sym.__hash__

    def __bool__(self):
        return ENG.decide(self.e != 0)

    def _ar(self, o, f, rf=None):
        x = ie(o)
        if x is not None:
            return mkint(z3.simplify(f(self.e, x)) if isinstance(x, int) else f(self.e, x))
        if isinstance(o, (float, SymRat)):
            return f(SymRat(self.e), o)
        return NotImplemented

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: b + a)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, SymStr)):
            return o * self.__index__()
        return self._ar(o, lambda a, b: a * b)
    def __rmul__(self, o): return self.__mul__(o)
    def __neg__(self): return mkint(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.e >= 0, self.e, -self.e))
    def __invert__(self): return mkint(-self.e - 1)

    @staticmethod
    def _divmod(a, b):
        """floor division of int-likes (python int or z3 expr)."""
        if isinstance(b, int):
            if b == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if b < 0:
                a = -a
                b2 = -b
                q = mkint(z3.simplify(a / b2)) if not isinstance(a, int) else a // b2
                r = mkint(-(a % b2)) if not isinstance(a, int) else -(a % b2)
                return q, r
            if isinstance(a, int):
                return a // b, a % b
            return mkint(a / b), mkint(a % b)
        if ENG.decide(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if ENG.decide(b < 0):
            q, r = -a, -b
            a2 = z3.IntVal(q) if isinstance(q, int) else q
            return mkint(a2 / r), mkint(-(a2 % r))
        a2 = z3.IntVal(a) if isinstance(a, int) else a
        return mkint(a2 / b), mkint(a2 % b)

    def _dm(self, o, i, swap=False):
        x = ie(o)
        if x is None:
            if isinstance(o, (float, SymRat)):
                a, b = SymRat(self.e), o
                if swap:
                    a, b = b, a
                return (a // b) if i == 0 else (a % b)
            return NotImplemented
        return (self._divmod(x, self.e) if swap else self._divmod(self.e, x))[i]

    def __floordiv__(self, o): return self._dm(o, 0)
    def __rfloordiv__(self, o): return self._dm(o, 0, True)
    def __mod__(self, o): return self._dm(o, 1)
    def __rmod__(self, o):
        if isinstance(o, (str, SymStr)):
            return NotImplemented
        return self._dm(o, 1, True)
    def __divmod__(self, o): return (self._dm(o, 0), self._dm(o, 1))

    def __truediv__(self, o):
        return SymRat(self.e) / o

    def __rtruediv__(self, o):
        return o / SymRat(self.e)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return ENG.concretise(self) ** (ENG.concretise(o) if isinstance(o, Sym) else o)

    def __rpow__(self, o):
        return o ** ENG.concretise(self)

    def _bits(self, o, f):
        a = ENG.concretise(self)
        b = ENG.concretise(o) if isinstance(o, Sym) else o
        return f(a, b)

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return mkint(self.e % (o + 1))
        return self._bits(o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o): return self._bits(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o): return self._bits(o, lambda a, b: a ^ b)
    __rxor__ = __xor__
    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        return self._bits(o, lambda a, b: a >> b)
    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        return self._bits(o, lambda a, b: a << b)

    def __index__(self):
        return ENG.concretise(self, 12)

    def __int__(self):
        return ENG.concretise(self)

    def __float__(self):
        return float(ENG.concretise(self))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def is_integer(self):
        return True

    def bit_length(self):
        return ENG.concretise(self).bit_length()

    def __str__(self):
        return str(ENG.concretise(self))

    def __format__(self, spec):
        return format(ENG.concretise(self), spec)

    def in_model(self, m):
        return m.eval(self.e, model_completion=True).as_long()

    py_value = in_model

    def equals_value(self, v):
        return self.e == v

    def __repr__(self):
        return "SymInt(%s)" % self.e


def ratio(x):
    """(numerator: int or z3 Int, denominator: positive int) of a number-like, or None."""
    if isinstance(x, SymRat):
        return x.n, x.d
    e = ie(x)
    if e is not None:
        return e, 1
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("rational arithmetic with a special float")
        return decimal_ratio(x)
    return None


def decimal_ratio(x):
    """Ratio of a float constant; the shortest decimal when it has few digits (0.001 -> 1/1000)."""
    from fractions import Fraction
    f = Fraction(repr(x))
    return f.numerator, f.denominator


def _sz(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else e


def _fdiv(n, d):
    """(floor(n/d), n mod d) with named quotient (d a positive int)."""
    if isinstance(n, int):
        return n // d, n % d
    if d == 1:
        return n, 0
    q, r = ENG.fresh("q"), ENG.fresh("r")
    ENG.add(z3.And(n == q * d + r, r >= 0, r < d))
    return q, r


class SymRat(Sym):
    """Result of int/float arithmetic kept as an exact rational n/d (d a positive constant).  An
    approximation of the machine double; its use is counted in the evidence.  Where the code
    truncates, values within one part in 2**50 of an integer may fall on either side."""
    __slots__ = ("n", "d", "z")

    def __init__(self, n, d=1, z=None):
        import math as _m
        self.z = z if z is not None else (1 if d > 1 else 0)   # rounded operations so far
        if isinstance(n, int):
            g = _m.gcd(n, d)
            n, d = n // g, d // g
        self.n, self.d = n, d
        ENG.stats["float_as_real"] = ENG.stats.get("float_as_real", 0) + 1

    @property
    def e(self):
        return z3.ToReal(self.n) / self.d if not isinstance(self.n, int) else z3.RealVal(self.n) / self.d

    @staticmethod
    def of_fp(x):
        """Exact value of a double as a rational: only for concretised values."""
        v = ENG.concretise(x)
        n, d = v.as_integer_ratio()
        return SymRat(n, d)

    def _c(self, o, op):
        if isinstance(o, SymFloat):
            raise Unsupported("mixed float models")
        if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
            return bool(op(0.0, o))
        x = ratio(o)
        return NotImplemented if x is None else mkbool(op(self.n * x[1], x[0] * self.d))

    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b)
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    __hash__ = Sym.__hash__

    def __bool__(self):
        return ENG.decide(self.n != 0)

    def _a(self, o, f):
        if isinstance(o, SymFloat):
            raise Unsupported("mixed float models")
        x = ratio(o)
        if x is None:
            return NotImplemented
        n, d = f(self.n, self.d, x[0], x[1])
        z = self.z + (o.z if isinstance(o, SymRat) else 0)
        return SymRat(_sz(n), d, z + 1 if z else None)._norm()

    def _norm(self):
        """Cancel a constant factor of a numerator of the form k*e."""
        import math as _m
        n = self.n
        if not isinstance(n, int) and self.d != 1:
            k = _content(n)
            g = _m.gcd(k, self.d)
            if g > 1:
                self.n, self.d = _divide(n, g), self.d // g
        return self

    def __add__(self, o): return self._a(o, lambda a, b, c, d: (a + c, b) if b == d else (a * d + c * b, b * d))
    __radd__ = __add__
    def __sub__(self, o): return self._a(o, lambda a, b, c, d: (a - c, b) if b == d else (a * d - c * b, b * d))
    def __rsub__(self, o): return self._a(o, lambda a, b, c, d: (c - a, b) if b == d else (c * b - a * d, b * d))
    def __mul__(self, o): return self._a(o, lambda a, b, c, d: (a * c, b * d))
    __rmul__ = __mul__

    def _div(self, num, den):
        """num / den (ratios)."""
        n, d = den
        if isinstance(n, int):
            if n == 0:
                raise ZeroDivisionError("division by zero")
            s = 1 if n > 0 else -1
            return SymRat(_sz(num[0] * d * s), num[1] * abs(n), self.z + 1 if self.z else None)._norm()
        raise Unsupported("division by a symbolic number")

    def __truediv__(self, o):
        x = ratio(o)
        return NotImplemented if x is None else self._div((self.n, self.d), x)

    def __rtruediv__(self, o):
        x = ratio(o)
        return NotImplemented if x is None else self._div(x, (self.n, self.d))

    def _floor_mod(self, o):
        q = self / o
        k = q.__floor__()
        return SymRat(ie(k), 1), self - SymRat(ie(k), 1) * o

    def __floordiv__(self, o): return self._floor_mod(o)[0]
    def __rfloordiv__(self, o): return SymRat(*ratio(o)) // self
    def __mod__(self, o): return self._floor_mod(o)[1]
    def __divmod__(self, o): return self._floor_mod(o)

    def __neg__(self): return SymRat(-self.n, self.d)
    def __pos__(self): return self
    def __abs__(self): return SymRat(z3.If(self.n >= 0, self.n, -self.n) if not isinstance(self.n, int)
                                     else abs(self.n), self.d)

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round(x, n)")
        q, r = _fdiv(self.n, self.d)
        if self.d == 1:
            return mkint(q)
        if isinstance(q, int):
            import fractions
            return round(fractions.Fraction(self.n, self.d))
        return mkint(z3.If(2 * r < self.d, q, z3.If(2 * r > self.d, q + 1, z3.If(q % 2 == 0, q, q + 1))))

    def to_int(self):
        q, r = _fdiv(self.n, self.d)
        if isinstance(q, int):
            return q if self.n >= 0 or r == 0 else q + 1
        if self.z >= 2:
            # two or more rounded operations: an exact integer may come out just below it
            ENG.float_fuzzy = True
            low = ENG.fresh("ulp", "bool")
            exact = z3.BoolVal(True) if self.d == 1 else r == 0
            q = z3.If(z3.And(low, exact, self.n != 0), z3.If(self.n > 0, q - 1, q + 1), q)
            if self.d == 1:
                return mkint(q)
            return mkint(z3.If(z3.And(self.n < 0, r > 0), q + 1, q))
        if self.d == 1:
            return mkint(q)
        return mkint(z3.If(z3.And(self.n < 0, r > 0), q + 1, q))

    def __floor__(self):
        q, r = _fdiv(self.n, self.d)
        if self.z >= 2 and not isinstance(q, int):
            ENG.float_fuzzy = True
            low = ENG.fresh("ulp", "bool")
            exact = z3.BoolVal(True) if self.d == 1 else r == 0
            return mkint(z3.If(z3.And(low, exact), q - 1, q))
        return mkint(q)

    def __ceil__(self):
        q, r = _fdiv(self.n, self.d)
        if isinstance(q, int):
            return q + (1 if r else 0)
        return mkint(z3.If(r > 0, q + 1, q)) if self.d != 1 else mkint(q)

    def is_integer(self):
        return mkbool(self.n % self.d == 0)

    def py_value(self, m):
        n = self.n if isinstance(self.n, int) else m.eval(self.n, model_completion=True).as_long()
        return n / self.d

    def in_model(self, m):
        return {"float": self.py_value(m).hex()}

    def equals_value(self, v):
        a, b = v.as_integer_ratio()
        # the machine double nearest to n/d
        n, d = self.n, self.d
        t = abs(v) * 2.0 ** -52 * d + 1e-12
        import math as _m
        lo, hi = _m.floor(v * d - t), _m.ceil(v * d + t)
        return z3.And(n >= lo, n <= hi) if hi - lo > 1 else n == round(v * d)

    def __repr__(self):
        return "SymRat(%s/%s)" % (self.n, self.d)


def _content(e):
    """A constant factor of every monomial of a linear term."""
    import math as _m
    if z3.is_int_value(e):
        return abs(e.as_long())
    if z3.is_add(e) or z3.is_sub(e):
        g = 0
        for c in e.children():
            g = _m.gcd(g, _content(c))
        return g
    if z3.is_mul(e):
        g = 1
        for c in e.children():
            if z3.is_int_value(c):
                g *= abs(c.as_long())
        return g or 1
    if e.decl().kind() == z3.Z3_OP_UMINUS:
        return _content(e.arg(0))
    return 1


def _divide(e, g):
    if z3.is_int_value(e):
        return z3.IntVal(e.as_long() // g)
    if z3.is_add(e):
        return z3.Sum(*[_divide(c, g) for c in e.children()])
    if z3.is_sub(e):
        return _divide(e.arg(0), g) - z3.Sum(*[_divide(c, g) for c in e.children()[1:]])
    if e.decl().kind() == z3.Z3_OP_UMINUS:
        return -_divide(e.arg(0), g)
    out = []
    k = 1
    for c in e.children():
        if z3.is_int_value(c):
            k *= c.as_long()
        else:
            out.append(c)
    r = z3.IntVal(k // g)
    for c in out:
        r = r * c
    return z3.simplify(r)


FP = z3.Float64()
RM = z3.RNE()


def fe(x):
    if isinstance(x, SymFloat):
        return x.e
    if isinstance(x, SymBool):
        x = x._i()
    if isinstance(x, SymInt):
        return z3.fpToFP(RM, z3.ToReal(x.e), FP)
    if isinstance(x, (bool, int)):
        try:
            return z3.FPVal(float(x), FP)
        except OverflowError:
            return None
    if isinstance(x, float):
        if x != x:
            return z3.fpNaN(FP)
        return z3.FPVal(x, FP)
    return None


class SymFloat(Sym):
    """IEEE double (z3 Float64)."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _from_int(self, i):
        return SymFloat(fe(i))

    def _c(self, o, op):
        if isinstance(o, SymIntFloat):
            return mkbool(op(self.e, o.e))
        x = fe(o)
        return NotImplemented if x is None else mkbool(op(self.e, x))

    def __eq__(self, o): return self._c(o, z3.fpEQ)
    def __ne__(self, o): return self._c(o, z3.fpNEQ)
    def __lt__(self, o): return self._c(o, z3.fpLT)
    def __le__(self, o): return self._c(o, z3.fpLEQ)
    def __gt__(self, o): return self._c(o, z3.fpGT)
    def __ge__(self, o): return self._c(o, z3.fpGEQ)
    __hash__ = Sym.__hash__

    def __bool__(self):
        return ENG.decide(z3.Not(z3.fpIsZero(self.e)))

    def _a(self, o, f, swap=False):
        x = fe(o)
        if x is None:
            return NotImplemented
        return SymFloat(f(RM, x, self.e) if swap else f(RM, self.e, x))

    def __add__(self, o): return self._a(o, z3.fpAdd)
    def __radd__(self, o): return self._a(o, z3.fpAdd, True)
    def __sub__(self, o): return self._a(o, z3.fpSub)
    def __rsub__(self, o): return self._a(o, z3.fpSub, True)
    def __mul__(self, o): return self._a(o, z3.fpMul)
    def __rmul__(self, o): return self._a(o, z3.fpMul, True)

    def __truediv__(self, o):
        x = fe(o)
        if x is None:
            return NotImplemented
        if ENG.decide(z3.fpIsZero(x)):
            raise ZeroDivisionError("float division by zero")
        return self._a(o, z3.fpDiv)

    def __neg__(self): return SymFloat(z3.fpNeg(self.e))
    def __abs__(self): return SymFloat(z3.fpAbs(self.e))

    def is_integer(self):
        return mkbool(z3.And(z3.Not(z3.fpIsInf(self.e)), z3.Not(z3.fpIsNaN(self.e)),
                             z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), self.e), self.e)))

    def same(self, o):
        """Same double (NaN equals NaN, -0.0 differs from 0.0)."""
        x = fe(o)
        return mkbool(self.e == x) if x is not None else False

    def __int__(self):
        return int(ENG.concretise(self))

    def to_int(self):
        if ENG.decide(z3.fpIsNaN(self.e)):
            raise ValueError("cannot convert float NaN to integer")
        if ENG.decide(z3.fpIsInf(self.e)):
            raise OverflowError("cannot convert float infinity to integer")
        r = z3.fpToReal(self.e)
        return mkint(z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))

    def __float__(self):
        return ENG.concretise(self)

    def __round__(self, n=None):
        return round(ENG.concretise(self), n)

    def __str__(self):
        return str(ENG.concretise(self))

    def __format__(self, spec):
        return format(ENG.concretise(self), spec)

    def py_value(self, m):
        v = m.eval(self.e, model_completion=True)
        if z3.is_fprm(v):
            raise Unsupported("fp value")
        if v.isNaN():
            return float("nan")
        if v.isInf():
            return float("-inf") if v.isNegative() else float("inf")
        if v.isZero():
            return -0.0 if v.isNegative() else 0.0
        bv = m.eval(z3.fpToIEEEBV(v), model_completion=True)
        bv = z3.simplify(bv)
        return struct.unpack(">d", bv.as_long().to_bytes(8, "big"))[0]

    def in_model(self, m):
        v = self.py_value(m)
        return {"float": v.hex() if v == v and abs(v) != float("inf") else repr(v)}

    def equals_value(self, v):
        return self.e == fe(v)

    def __repr__(self):
        return "SymFloat(%s)" % self.e


def int_to_float(x):
    """float(n) of a symbolic integer: rounded half to even, as CPython does (forks over the exponent)."""
    n = x.e
    a = z3.If(n >= 0, n, -n)
    if ENG.decide(a <= 2 ** 53):
        return SymIntFloat(n)
    for k in range(53, 70):
        if ENG.decide(a < 2 ** (k + 1)):
            u = 2 ** (k - 52)
            q, rem = a / u, a % u
            up = z3.Or(2 * rem > u, z3.And(2 * rem == u, q % 2 == 1))
            r = (q + z3.If(up, 1, 0)) * u
            return SymIntFloat(z3.If(n >= 0, r, -r))
    raise Pruned("float of an integer of 2**70 or more")


class SymIntFloat(SymFloat):
    """A double whose value is a known integer."""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    @property
    def e(self):
        return z3.fpToFP(RM, z3.ToReal(self.n), FP)

    def _i(self, o, f):
        if isinstance(o, SymIntFloat):
            return mkbool(f(self.n, o.n))
        x = ie(o)
        if x is not None:
            return mkbool(f(self.n, x))
        if isinstance(o, float):
            return f(SymInt(self.n), o)
        return None

    def __eq__(self, o):
        r = self._i(o, lambda a, b: a == b)
        return SymFloat.__eq__(self, o) if r is None else r
    def __ne__(self, o):
        r = self._i(o, lambda a, b: a != b)
        return SymFloat.__ne__(self, o) if r is None else r
    def __lt__(self, o):
        r = self._i(o, lambda a, b: a < b)
        return SymFloat.__lt__(self, o) if r is None else r
    def __le__(self, o):
        r = self._i(o, lambda a, b: a <= b)
        return SymFloat.__le__(self, o) if r is None else r
    def __gt__(self, o):
        r = self._i(o, lambda a, b: a > b)
        return SymFloat.__gt__(self, o) if r is None else r
    def __ge__(self, o):
        r = self._i(o, lambda a, b: a >= b)
        return SymFloat.__ge__(self, o) if r is None else r
    __hash__ = Sym.__hash__

    def __bool__(self):
        return ENG.decide(self.n != 0)

    def __neg__(self): return SymFloat.__neg__(self)          # -0.0
    def __abs__(self): return SymIntFloat(z3.If(self.n >= 0, self.n, -self.n))
    def is_integer(self): return True
    def to_int(self): return mkint(self.n)


from symx.sstr import SymStr, OpaqueStr  # noqa: E402
