"""Call, operator and builtin dispatch for the code under test (see transform.py)."""
import builtins
import functools
import itertools
import math
import operator
import types

import z3
from symx import core, fmt
from symx.core import (Sym, SymBool, SymInt, SymFloat, SymRat, Unsupported, Control, mkbool, mkint, ie)
from symx.sstr import (SymStr, OpaqueStr, SymBytes, is_str, concat, chars, mkstr, as_sym, tname, parse_int,
                       parse_float)
from symx import containers as C
from symx.containers import SDict, SSet, SFrozen, HashVal, sx_hash

FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = types.BuiltinFunctionType


def has_sym(x, depth=3):
    if isinstance(x, (Sym, HashVal)):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(y, depth - 1) for y in x)
    return False


# ------------------------------------------------------------------ builtin functions
def b_len(x):
    if isinstance(x, SymStr):
        return x.sx_len()
    f = getattr(type(x), "__len__", None)
    if f is None:
        return len(x)
    if isinstance(f, FunctionType):
        n = f(x)
        return n
    return len(x)


STUB_TYPES = {}


def _norm_cls(c):
    return c


def b_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(b_isinstance(x, c) for c in cls)
    if isinstance(cls, types.UnionType):
        return any(b_isinstance(x, c) for c in cls.__args__)
    if isinstance(x, Sym):
        if cls is object:
            return True
        if isinstance(x, SymStr):
            return cls is str or _abc(cls, str)
        if isinstance(x, SymBool):
            return cls in (bool, int) or _abc(cls, bool)
        if isinstance(x, SymInt):
            return cls is int or _abc(cls, int)
        if isinstance(x, (SymFloat, SymRat)):
            return cls is float or _abc(cls, float)
        if isinstance(x, SymBytes):
            return cls is bytes
        return isinstance(x, cls)
    if cls is dict:
        cls = SDict
    elif cls is set:
        cls = SSet
    elif cls is frozenset:
        cls = SFrozen
    return isinstance(x, cls)


def _abc(cls, t):
    return type(cls).__name__ == "ABCMeta" and issubclass(t, cls)


def b_issubclass(a, b):
    if isinstance(b, tuple):
        return any(b_issubclass(a, c) for c in b)
    return issubclass(a, {dict: SDict, set: SSet, frozenset: SFrozen}.get(b, b) if isinstance(b, type) else b)


def b_int(x=0, base=None):
    if base is not None:
        if isinstance(x, SymStr):
            return parse_int(x, base)
        return int(x, base)
    if isinstance(x, SymBool):
        return x._i()
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymFloat):
        return x.to_int()
    if isinstance(x, SymRat):
        return x.to_int()
    if isinstance(x, SymStr):
        return parse_int(x)
    if type(x).__module__.startswith("opyenxes") or type(x).__module__.startswith("symx"):
        f = getattr(type(x), "__int__", None) or getattr(type(x), "__index__", None)
        if f:
            return f(x)
    return int(x)


def b_float(x=0.0):
    if isinstance(x, (SymFloat, SymRat)):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return core.int_to_float(x if isinstance(x, SymInt) else x._i())
    if isinstance(x, SymStr):
        return parse_float(x)
    f = getattr(type(x), "__float__", None)
    if isinstance(f, FunctionType):
        return f(x)
    return float(x)


def b_str(x="", *a):
    if a:
        return str(x, *a) if not isinstance(x, SymBytes) else x.decode()
    return fmt.to_str(x)


def b_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return bool(x)
    f = getattr(type(x), "__bool__", None)
    if isinstance(f, FunctionType):
        r = f(x)
        return r
    return bool(x)


def b_type(x, *a):
    if a:
        name, bases, ns = x, a[0], a[1]
        if isinstance(ns, SDict):
            ns = {k: v for k, v in ns.items()}
        return type(name, bases, ns)
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymInt):
        return int
    if isinstance(x, (SymFloat, SymRat)):
        return float
    if isinstance(x, SymBytes):
        return bytes
    return type(x)


def b_ord(x):
    if isinstance(x, SymStr):
        cs = chars(x)
        if len(cs) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(cs))
        return mkint(cs[0])
    return ord(x)


def b_chr(x):
    if isinstance(x, SymInt):
        return mkstr([x.e])
    return chr(x)


def b_abs(x): return abs(x)


def b_round(x, n=None):
    if isinstance(x, Sym) and n is None:
        if isinstance(x, SymFloat):
            x = SymRat.of_fp(x)
        return round(x)
    return round(x, n) if n is not None else round(x)


def b_range(*a):
    return range(*[x.__index__() if isinstance(x, SymInt) else x for x in a])


def b_hash(x):
    return sx_hash(x)


def b_sum(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


def b_min(*a, key=None, **kw):
    return _ext(a, key, kw, lambda x, y: x < y, "min")


def b_max(*a, key=None, **kw):
    return _ext(a, key, kw, lambda x, y: x > y, "max")


def _ext(a, key, kw, better, name):
    it = list(a[0]) if len(a) == 1 else list(a)
    if not it:
        if "default" in kw:
            return kw["default"]
        raise ValueError("%s() iterable argument is empty" % name)
    k = (lambda x: x) if key is None else wrapf(key)
    best = it[0]
    bk = k(best)
    for x in it[1:]:
        xk = k(x)
        if better(xk, bk):
            best, bk = x, xk
    return best


def b_print(*a, **k):
    # evaluate the text (so a failing __str__ still fails), drop the output
    ts = [x if isinstance(x, Sym) else fmt.to_str(x) for x in a]
    core.ENG.hooks.setdefault("printed", []).append(ts)


def b_open(path, mode="r", *a, **k):
    from symx.stubs import vfs_open
    return vfs_open(path, mode)


def b_pow(a, b, m=None):
    return a ** b if m is None else pow(a, b, m)


def b_divmod(a, b):
    return (a // b, a % b)


def b_id(x):
    return id(x)


def b_iter(x, *a): return iter(x, *a)


def b_format(x, spec=""): return fmt.fmt_value(x, spec)
def b_repr(x): return fmt.to_repr(x)


def wrapf(f):
    """A callable given to native code: route builtin types and functions through sx_call."""
    if f is None or isinstance(f, (FunctionType, MethodType)):
        return f
    return lambda *a, **k: sx_call(f, *a, **k)


def b_map(f, *its): return map(wrapf(f), *its)
def b_filter(f, it): return filter(wrapf(f), it)


def b_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=wrapf(key), reverse=bool(reverse))


def b_getattr(o, n, *d):
    if isinstance(n, SymStr):
        n = core.ENG.concretise(n)
    return getattr(o, n, *d)


def b_setattr(o, n, v):
    if isinstance(n, SymStr):
        n = core.ENG.concretise(n)
    setattr(o, n, v)


def b_hasattr(o, n):
    if isinstance(n, SymStr):
        n = core.ENG.concretise(n)
    return hasattr(o, n)


def b_bytes(*a):
    if a and isinstance(a[0], SymStr):
        return a[0].encode()
    return bytes(*a)


def b_any(it):
    for x in it:
        if x:
            return True
    return False


def b_all(it):
    for x in it:
        if not x:
            return False
    return True


def b_callable(x): return callable(x)


TYPES = {int: b_int, float: b_float, str: b_str, bool: b_bool, type: b_type, map: b_map, filter: b_filter,
         range: b_range, dict: SDict, set: SSet, frozenset: SFrozen, bytes: b_bytes}

FUNCS = {len: b_len, isinstance: b_isinstance, issubclass: b_issubclass, ord: b_ord, chr: b_chr,
         round: b_round, hash: b_hash, sum: b_sum, min: b_min, max: b_max, print: b_print, open: b_open,
         pow: b_pow, divmod: b_divmod, format: b_format, repr: b_repr, sorted: b_sorted, getattr: b_getattr,
         setattr: b_setattr, hasattr: b_hasattr, any: b_any, all: b_all, abs: b_abs, chr: b_chr, callable: callable,
         next: next, iter: b_iter, id: id,
         operator.contains: lambda c, x: sx_in(x, c), operator.mod: lambda a, b: sx_mod(a, b),
         operator.concat: lambda a, b: a + b,
         math.floor: lambda x: _mfloor(x), math.ceil: lambda x: -_mfloor(-x), math.trunc: lambda x: b_int(x),
         math.isnan: lambda x: mkbool(z3.fpIsNaN(x.e)) if isinstance(x, SymFloat) else
             (False if isinstance(x, Sym) else math.isnan(x)),
         math.isinf: lambda x: mkbool(z3.fpIsInf(x.e)) if isinstance(x, SymFloat) else
             (False if isinstance(x, Sym) else math.isinf(x)),
         functools.reduce: lambda f, *a: functools.reduce(wrapf(f), *a),
         }


def _mfloor(x):
    if isinstance(x, (SymInt, SymBool)):
        return b_int(x)
    if isinstance(x, SymFloat):
        x = SymRat.of_fp(x)
    if isinstance(x, SymRat):
        return x.__floor__()
    return math.floor(x)


SYM_NATIVE_OK = (list, tuple, enumerate, zip, reversed, object, super, property, staticmethod, classmethod,
                 itertools.chain, itertools.islice, itertools.zip_longest, itertools.product, slice,
                 itertools.repeat, itertools.count, itertools.combinations, itertools.permutations,
                 itertools.tee, itertools.takewhile, itertools.dropwhile, itertools.groupby,
                 functools.partial, memoryview)

STR_METHODS = {n for n in dir(str) if not n.startswith("__")} | {"__contains__", "__getitem__", "__len__",
                                                                "__add__", "__mod__", "__eq__", "__lt__"}


def str_method(s, name, a, k):
    """str method on a concrete string with symbolic arguments."""
    if name == "format":
        return fmt.format_str(s, a, k)
    if name == "format_map":
        return fmt.format_str(s, (), a[0])
    if name == "join":
        items = list(a[0])
        if not any(isinstance(x, Sym) for x in items):
            return s.join(items)
        return as_sym(s).join(items) if s else _join_empty(items)
    if name in ("__eq__", "__lt__", "__add__", "__contains__"):
        return getattr(as_sym(s), name)(*a, **k)
    return getattr(as_sym(s), name)(*a, **k)


def _join_empty(items):
    out = ""
    for i, x in enumerate(items):
        if not is_str(x):
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, tname(x)))
        out = concat(out, x)
    return out


def needs_fmt(a, k):
    """format arguments that native str.format would mishandle."""
    for x in list(a) + list(k.values()):
        if isinstance(x, Sym) or isinstance(x, (SDict, SSet)):
            return True
        if not isinstance(x, (str, int, float, bool, type(None))):
            return True
    return False


def sx_call(f, *a, **k):
    t = type(f)
    if t is FunctionType or t is MethodType:
        return f(*a, **k)
    if t is BuiltinType:
        g = FUNCS.get(f) if f.__self__ is None or type(f.__self__) is types.ModuleType else None
        if g is not None:
            return g(*a, **k)
        s = f.__self__
        if type(s) is str:
            n = f.__name__
            if n == "format":
                if needs_fmt(a, k):
                    return fmt.format_str(s, a, k)
                return f(*a, **k)
            if n == "join":
                items = list(a[0]) if len(a) == 1 else a
                if any(isinstance(x, Sym) for x in items):
                    return str_method(s, n, (items,), k)
                return f(items)
            if n == "format_map":
                return str_method(s, n, a, k)
            if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
                return str_method(s, n, a, k)
            return f(*a, **k)
        if isinstance(s, type) and s in (dict, set, frozenset) and f.__name__ == "fromkeys":
            return SDict.fromkeys(*a)
        if isinstance(s, list) and f.__name__ == "sort":
            if k.get("key") is not None:
                k["key"] = wrapf(k["key"])
            if "reverse" in k:
                k["reverse"] = bool(k["reverse"])
            return f(*a, **k)
        if s is object and f.__name__ == "__new__":
            return f(*a, **k)
        if type(s) is tuple or isinstance(s, (list, dict, set)) or s is None:
            return f(*a, **k)
        if any(isinstance(x, Sym) for x in a) or any(isinstance(x, Sym) for x in k.values()):
            return native(f, a, k)
        return f(*a, **k)
    if isinstance(f, type):
        g = TYPES.get(f)
        if g is not None:
            return g(*a, **k)
        if f in SYM_NATIVE_OK or f.__flags__ & 0x200:          # heap types: Python classes
            if f is functools.partial:
                return functools.partial(wrapf(a[0]), *a[1:], **k)
            return f(*a, **k)
        if issubclass(f, BaseException):
            return f(*a, **k)
        if any(isinstance(x, Sym) for x in a):
            return native(f, a, k)
        return f(*a, **k)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        # unbound: str.lower(x), dict.get(d, k), list.append
        if a and isinstance(a[0], SymStr) and getattr(f, "__objclass__", None) is str:
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if a and isinstance(a[0], str) and f.__objclass__ is str:
            return sx_call(getattr(a[0], f.__name__), *a[1:], **k)
        if a and isinstance(a[0], (SDict, SSet)) and f.__objclass__ in (dict, set, frozenset):
            return getattr(SDict if f.__objclass__ is dict else SSet, f.__name__)(*a, **k)
        return f(*a, **k)
    return f(*a, **k)


def native(f, a, k):
    """A C function given symbolic values: enumerate a few models (coverage is then partial)."""
    if getattr(f, "__module__", None) == "_operator":      # works through the operators of the values
        return f(*a, **k)
    a = [core.ENG.concretise(x) if isinstance(x, Sym) else x for x in a]
    k = {n: core.ENG.concretise(x) if isinstance(x, Sym) else x for n, x in k.items()}
    return f(*a, **k)


def sx_mod(a, b):
    if isinstance(a, (str, SymStr)):
        if isinstance(a, str) and not has_sym(b) and not needs_fmt(b if isinstance(b, tuple) else (b,), {}):
            return a % b
        return fmt.percent(a, b)
    return a % b


def sx_in(x, c):
    if isinstance(c, SymStr):
        return c.contains(x)
    if isinstance(c, str):
        if isinstance(x, SymStr):
            return as_sym(c).contains(x) if not isinstance(x, OpaqueStr) else as_sym(c).contains(x.expand())
        return x in c
    if isinstance(c, (set, frozenset, dict)) and isinstance(x, (Sym, HashVal)):
        return any(x is y or bool(x == y) for y in c)
    if isinstance(c, range) and isinstance(x, (SymInt, SymBool)):
        e = ie(x)
        n = len(c)
        if n == 0:
            return False
        lo, hi = min(c[0], c[-1]), max(c[0], c[-1])
        return mkbool(z3.And(e >= lo, e <= hi, (e - c[0]) % abs(c.step) == 0))
    return x in c


def sx_notin(x, c):
    return core.snot(sx_in(x, c))


def sx_is(a, b):
    if isinstance(a, SymBool) and isinstance(b, bool):
        return a == b
    if isinstance(b, SymBool) and isinstance(a, bool):
        return a == b
    return a is b


def sx_isnot(a, b):
    return core.snot(sx_is(a, b))


def sx_fstr(*parts):
    out = ""
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if conv == 115:
                v = fmt.to_str(v)
            elif conv in (114, 97):
                v = fmt.to_repr(v)
            p = fmt.fmt_value(v, spec)
        out = concat(out, p)
    return out


def sx_dict(pairs):
    d = SDict()
    for k, v in pairs:
        if k is DSTAR:
            d.update(v)
        else:
            d[k] = v
    return d


DSTAR = object()


def sx_set(items):
    return SSet(items)


def sx_getitem(o, i):
    """Concrete str / range indexed by a symbolic int is handled by __index__."""
    return o[i]


def sx_unpack_kw(d):
    if isinstance(d, SDict):
        return {(core.ENG.concretise(k) if isinstance(k, SymStr) else k): v for k, v in d.items()}
    return d
