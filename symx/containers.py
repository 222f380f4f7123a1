"""Dictionaries, sets and hashes that accept symbolic keys.

The code under test sees these classes under the names dict / set / frozenset.  A lookup
follows CPython: identity, or equal hash and equal value.  Hashes are structural tokens
(`HashVal`): two hashes are equal when the hashed structure is equal, so "equal objects have
equal hashes" is decided rather than assumed.
"""
import z3
from symx import core
from symx.core import Sym, SymInt, SymBool, SymFloat, SymRat, And, Or, mkbool, sand, Unsupported
from symx.sstr import SymStr, is_str, tname

_dict, _set, _frozenset, _hash = dict, set, frozenset, hash


class HashVal:
    """Structural hash value; arithmetic builds a tree (assumed collision free)."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, HashVal):
            return struct_eq(self.t, o.t)
        if isinstance(o, (int, SymInt)):
            if self.t[0] == "n":
                return num_eq(self.t[1], o)
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.snot(r)

    __hash__ = None

    def _op(self, name, o, swap=False):
        a, b = self.t, (o.t if isinstance(o, HashVal) else ("n", o))
        if name == "^" and not swap and a[0] == "acc" and False:
            pass
        return HashVal(("op", name, b, a) if swap else ("op", name, a, b))

    def __add__(self, o): return self._op("+", o)
    def __radd__(self, o): return self._op("+", o, True)
    def __sub__(self, o): return self._op("-", o)
    def __rsub__(self, o): return self._op("-", o, True)
    def __mul__(self, o): return self._op("*", o)
    def __rmul__(self, o): return self._op("*", o, True)
    def __mod__(self, o): return self._op("%", o)
    def __xor__(self, o): return self._op("^", o)
    def __rxor__(self, o): return self._op("^", o, True)
    def __or__(self, o): return self._op("|", o)
    def __and__(self, o): return self._op("&", o)
    def __lshift__(self, o): return self._op("<<", o)
    def __rshift__(self, o): return self._op(">>", o)
    def __neg__(self): return HashVal(("op", "neg", self.t))
    def __invert__(self): return HashVal(("op", "inv", self.t))
    def __bool__(self): return True
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def num_eq(a, b):
    r = a == b
    if r is NotImplemented:
        return False
    return r


def struct_eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and isinstance(a[0], str) and isinstance(b[0], str):
        if a[0] != b[0]:
            return False
        k = a[0]
        if k == "s":
            r = a[1] == b[1]
            return r
        if k == "n":
            return num_hash_eq(a[1], b[1])
        if k == "id":
            return a[1] is b[1]
        if k == "t":
            if len(a[1]) != len(b[1]):
                return False
            return sand(*[struct_eq(x, y) for x, y in zip(a[1], b[1])])
        if k == "f":              # frozenset: order-insensitive
            if len(a[1]) != len(b[1]):
                return False
            rest = list(b[1])
            for x in a[1]:
                for i, y in enumerate(rest):
                    if bool(struct_eq(x, y)):
                        del rest[i]
                        break
                else:
                    return False
            return True
        if k == "op":
            if a[1] != b[1] or len(a) != len(b):
                return False
            if a[1] in ("+", "*", "^", "&", "|") and len(a) == 4:
                fa, fb = flat(a), flat(b)
                if len(fa) != len(fb):
                    return False
                rest = list(fb)
                for x in fa:
                    for i, y in enumerate(rest):
                        if bool(struct_eq(x, y)):
                            del rest[i]
                            break
                    else:
                        return False
                return True
            return sand(*[struct_eq(x, y) for x, y in zip(a[2:], b[2:])])
        r = sand(*[num_eq(x, y) for x, y in zip(a[1:], b[1:])]) if len(a) == len(b) else False
        if k == "uuid":
            x, y = [sum(n * 16 ** (31 - i) for i, n in enumerate(core.ie(d) for d in t[1:])) for t in (a, b)]
            if isinstance(x, int) and isinstance(y, int):
                return hash(x) == hash(y)
            if not COLLIDE[0]:
                return r
            return core.sor(r, mkbool(x - y == HASH_P), mkbool(y - x == HASH_P))
        return r
    return num_eq(a, b)


HASH_P = 2 ** 61 - 1
COLLIDE = [True]


def num_hash_eq(a, b):
    """Equal hashes of numbers: equal numbers, and the nearest collisions of integers."""
    x, y = core.ie(a), core.ie(b)
    if x is None or y is None:
        return num_eq(a, b)
    if isinstance(x, int) and isinstance(y, int):
        return hash(x) == hash(y)
    if not COLLIDE[0]:
        return mkbool(x == y)
    return core.sor(mkbool(x == y), mkbool(And(x >= 0, y >= 0, Or(x - y == HASH_P, y - x == HASH_P))),
                    mkbool(And(Or(x == -1, x == -2), Or(y == -1, y == -2))))


def flat(t):
    if t[0] == "op" and len(t) == 4:
        op = t[1]
        out = []
        for x in t[2:]:
            if isinstance(x, tuple) and x[0] == "op" and x[1] == op and len(x) == 4:
                out += flat(x)
            else:
                out.append(x)
        return out
    return [t]


def sx_hash(x):
    """hash() as seen by the code under test."""
    if isinstance(x, HashVal):
        return x
    if is_str(x):
        return HashVal(("s", x))
    if isinstance(x, (int, float, SymInt, SymBool, SymFloat, SymRat)):
        return HashVal(("n", x))
    if isinstance(x, tuple):
        th = type(x).__hash__
        if th is not tuple.__hash__:
            return wrap(type(x).__hash__(x), x)
        return HashVal(("t", [sx_hash(e).t for e in x]))
    if isinstance(x, SSet):
        if not x.frozen:
            raise TypeError("unhashable type: 'set'")
        return HashVal(("f", [sx_hash(e).t for e in x]))
    h = type(x).__hash__
    if h is None:
        raise TypeError("unhashable type: '%s'" % tname(x))
    if h is object.__hash__ or isinstance(x, (type, super)):
        return HashVal(("id", x))
    return wrap(h(x), x)


def wrap(h, x):
    if isinstance(h, HashVal):
        return h
    if isinstance(h, (int, SymInt)):
        return HashVal(("n", h))
    raise TypeError("__hash__ method should return an integer")


def simple(k):
    """Keys with native, concrete equality: usable in a native dict."""
    t = type(k)
    if t is str or t is int or t is bool or k is None:
        return True
    if t is tuple:
        return all(simple(x) for x in k)
    return isinstance(k, type) and type(k).__hash__ is type.__hash__


def same_key(a, b):
    """Does key a match stored key b?  (bool, may fork)"""
    if a is b:
        return True
    ta, tb = is_str(a), is_str(b)
    if ta and tb:
        return bool(a == b)
    if ta != tb and (ta or tb):
        other = b if ta else a
        if isinstance(other, (int, float, tuple, Sym, type(None))):
            return False
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        return bool(a == b)
    COLLIDE[0] = False             # a collision is settled by the comparison of the values
    try:
        he = sx_hash(a) == sx_hash(b)
    finally:
        COLLIDE[0] = True
    if he is False or he is NotImplemented:
        return False
    if not bool(he):
        return False
    return bool(a == b)


class _DictMeta(type):
    def __instancecheck__(cls, o):
        if type.__instancecheck__(cls, o):
            return True
        return cls is SDict and isinstance(o, _dict)

    def __subclasscheck__(cls, c):
        return type.__subclasscheck__(cls, c) or (cls is SDict and isinstance(c, type) and issubclass(c, _dict)
                                                  if c is not SDict else True)


class _SetMeta(type):
    def __instancecheck__(cls, o):
        if type.__instancecheck__(cls, o):
            return not (cls is SSet and getattr(o, "frozen", False))
        return (cls is SSet and isinstance(o, _set)) or (cls is SFrozen and isinstance(o, _frozenset))


class _Assoc:
    """Insertion ordered association list with a native index for simple keys."""
    __slots__ = ("items", "index", "nsym", "live")

    def __init__(self):
        self.items = []            # [key, value] cells, None when deleted
        self.index = {}
        self.nsym = 0              # cells whose key is not simple
        self.live = 0

    def cells(self):
        return [c for c in self.items if c is not None]

    def find(self, k):
        if simple(k):
            c = self.index.get(k)
            if c is not None:
                return c
            if not self.nsym:
                return None
            for c in self.items:
                if c is not None and not c[2] and same_key(k, c[0]):
                    return c
            return None
        if not isinstance(k, Sym):
            sx_hash(k)             # raises for unhashable keys
        for c in self.items:
            if c is not None and k is c[0]:
                return c
        for c in self.items:
            if c is not None and same_key(k, c[0]):
                return c
        return None

    def put(self, k, v):
        c = self.find(k)
        if c is not None:
            c[1] = v
            return c
        s = simple(k)
        c = [k, v, s]
        self.items.append(c)
        if s:
            self.index[k] = c
        else:
            self.nsym += 1
        self.live += 1
        return c

    def remove(self, c):
        for i, d in enumerate(self.items):
            if d is c:
                del self.items[i]
                break
        if c[2]:
            del self.index[c[0]]
        else:
            self.nsym -= 1
        self.live -= 1

    def clear(self):
        self.items.clear()
        self.index.clear()
        self.nsym = self.live = 0


class _View:
    def __init__(self, d, f):
        self._d, self._f = d, f

    def __iter__(self):
        d = self._d
        n = d._a.live
        for c in d._a.cells():
            yield self._f(c)
            if d._a.live != n:
                raise RuntimeError("dictionary changed size during iteration")

    def __len__(self):
        return self._d._a.live

    def __reversed__(self):
        return reversed([self._f(c) for c in self._d._a.cells()])

    def __contains__(self, x):
        for y in self:
            if x is y or bool(x == y):
                return True
        return False

    def __repr__(self):
        return "dict_view"

    def _set(self):
        return SSet(list(self))

    def __and__(self, o): return self._set() & SSet(o)
    def __or__(self, o): return self._set() | SSet(o)
    def __sub__(self, o): return self._set() - SSet(o)

    def __eq__(self, o):
        if isinstance(o, _View) or isinstance(o, (SSet, SFrozen)):
            return self._set() == SSet(list(o))
        return NotImplemented

    __hash__ = None


class _KeyView(_View):
    def __contains__(self, k):
        return self._d._a.find(k) is not None


class SDict(metaclass=_DictMeta):
    def __init__(self, *args, **kw):
        self._init()
        self.update(*args, **kw)

    def _init(self):
        object.__setattr__(self, "_a", _Assoc())

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        object.__setattr__(o, "_a", _Assoc())
        return o

    def update(self, *args, **kw):
        if len(args) > 1:
            raise TypeError("update expected at most 1 argument, got %d" % len(args))
        for o in args:
            if isinstance(o, (SDict, _dict)) or hasattr(o, "keys"):
                for k in list(o.keys()):
                    self[k] = o[k]
            else:
                for pair in o:
                    k, v = pair
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    @classmethod
    def fromkeys(cls, it, value=None):
        d = cls()
        for k in it:
            d[k] = value
        return d

    def __getitem__(self, k):
        c = self._a.find(k)
        if c is None:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return c[1]

    def __setitem__(self, k, v):
        self._a.put(k, v)

    def __delitem__(self, k):
        c = self._a.find(k)
        if c is None:
            raise KeyError(k)
        self._a.remove(c)

    def __contains__(self, k):
        return self._a.find(k) is not None

    def __iter__(self):
        return iter(_View(self, lambda c: c[0]))

    def __reversed__(self):
        return reversed(_View(self, lambda c: c[0]))

    def __len__(self):
        return self._a.live

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, (SDict, _dict)):
            return NotImplemented
        if len(self) != len(o):
            return False
        for c in self._a.cells():
            if isinstance(o, SDict):
                d = o._a.find(c[0])
                if d is None:
                    return False
                v = d[1]
            else:
                if c[0] not in o:
                    return False
                v = o[c[0]]
            if not (c[1] is v or bool(c[1] == v)):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def get(self, k, default=None):
        c = self._a.find(k)
        return default if c is None else c[1]

    def setdefault(self, k, default=None):
        c = self._a.find(k)
        if c is None:
            c = self._a.put(k, default)
        return c[1]

    def pop(self, k, *default):
        c = self._a.find(k)
        if c is None:
            if default:
                return default[0]
            raise KeyError(k)
        self._a.remove(c)
        return c[1]

    def popitem(self):
        cs = self._a.cells()
        if not cs:
            raise KeyError("popitem(): dictionary is empty")
        self._a.remove(cs[-1])
        return (cs[-1][0], cs[-1][1])

    def clear(self):
        self._a.clear()

    def keys(self): return _KeyView(self, lambda c: c[0])
    def values(self): return _View(self, lambda c: c[1])
    def items(self): return _View(self, lambda c: (c[0], c[1]))

    def copy(self):
        d = SDict()
        for c in self._a.cells():
            d._a.put(c[0], c[1])
        return d

    __copy__ = None

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        d = SDict(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def _clone_type(self):
        d = type(self).__new__(type(self))
        _dict.update(d.__dict__, {k: v for k, v in self.__dict__.items() if k != "_a"})
        return d

    def __copy__(self):
        d = self._clone_type()
        for c in self._a.cells():
            d._a.put(c[0], c[1])
        return d

    def __deepcopy__(self, memo):
        import copy
        d = type(self).__new__(type(self))
        memo[id(self)] = d
        for k, v in self.__dict__.items():
            if k != "_a":
                d.__dict__[k] = copy.deepcopy(v, memo)
        for c in self._a.cells():
            d._a.put(copy.deepcopy(c[0], memo), copy.deepcopy(c[1], memo))
        return d

    def __repr__(self):
        return "{" + ", ".join("%r: %r" % (c[0], c[1]) for c in self._a.cells()) + "}"

    @classmethod
    def __class_getitem__(cls, k):
        return cls


class SOrderedDict(SDict):
    def move_to_end(self, k, last=True):
        c = self._a.find(k)
        if c is None:
            raise KeyError(k)
        self._a.items.remove(c)
        self._a.items.insert(len(self._a.items) if last else 0, c)

    def popitem(self, last=True):
        if last:
            return SDict.popitem(self)
        cs = self._a.cells()
        if not cs:
            raise KeyError("dictionary is empty")
        self._a.remove(cs[0])
        return (cs[0][0], cs[0][1])


class SDefaultDict(SDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        SDict.__init__(self, *a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def copy(self):
        return self.__copy__()


class SCounter(SDict):
    def __init__(self, it=None, **kw):
        self._init()
        self.update(it or (), **kw)

    def __missing__(self, k):
        return 0

    def update(self, it=(), **kw):
        if isinstance(it, (SDict, _dict)):
            for k, v in it.items():
                self[k] = self[k] + v
        else:
            for k in it:
                self[k] = self[k] + 1
        for k, v in kw.items():
            self[k] = self[k] + v

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return r if n is None else r[:n]

    def total(self):
        return sum(self.values())


class SSet(metaclass=_SetMeta):
    frozen = False

    def __init__(self, it=()):
        self._a.clear()
        for x in it:
            self._a.put(x, None)

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        o._a = _Assoc()
        return o

    def __iter__(self):
        n = self._a.live
        for c in self._a.cells():
            yield c[0]
            if self._a.live != n:
                raise RuntimeError("Set changed size during iteration")

    def __len__(self): return self._a.live

    def __contains__(self, x):
        return self._a.find(x) is not None

    def add(self, x):
        if self._a.find(x) is None:
            self._a.put(x, None)

    def discard(self, x):
        c = self._a.find(x)
        if c is not None:
            self._a.remove(c)

    def remove(self, x):
        c = self._a.find(x)
        if c is None:
            raise KeyError(x)
        self._a.remove(c)

    def pop(self):
        cs = self._a.cells()
        if not cs:
            raise KeyError("pop from an empty set")
        self._a.remove(cs[0])
        return cs[0][0]

    def clear(self): self._a.clear()

    def update(self, *its):
        for it in its:
            for x in list(it):
                self.add(x)

    def copy(self): return type(self)(list(self))

    def _new(self, it): return (SFrozen if self.frozen else SSet)(it)

    def union(self, *its):
        r = self._new(list(self))
        for it in its:
            for x in list(it):
                if r._a.find(x) is None:
                    r._a.put(x, None)
        return r

    def intersection(self, *its):
        sets = [SSet(list(i)) for i in its]
        return self._new([x for x in self if all(x in s for s in sets)])

    def difference(self, *its):
        sets = [SSet(list(i)) for i in its]
        return self._new([x for x in self if not any(x in s for s in sets)])

    def symmetric_difference(self, it):
        o = SSet(list(it))
        return self._new([x for x in self if x not in o] + [x for x in o if x not in self])

    def difference_update(self, *its):
        for it in its:
            for x in list(it):
                self.discard(x)

    def intersection_update(self, *its):
        r = self.intersection(*its)
        self._a = r._a

    def issubset(self, o):
        s = SSet(list(o))
        return all(x in s for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def _isset(self, o):
        return isinstance(o, (SSet, SFrozen, _set, _frozenset, _View))

    def __or__(self, o): return self.union(o) if self._isset(o) else NotImplemented
    __ror__ = __or__
    def __and__(self, o): return self.intersection(o) if self._isset(o) else NotImplemented
    __rand__ = __and__
    def __sub__(self, o): return self.difference(o) if self._isset(o) else NotImplemented
    def __rsub__(self, o): return SSet(list(o)).difference(self) if self._isset(o) else NotImplemented
    def __xor__(self, o): return self.symmetric_difference(o) if self._isset(o) else NotImplemented
    def __ior__(self, o):
        self.update(o)
        return self
    def __isub__(self, o):
        self.difference_update(o)
        return self
    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __eq__(self, o):
        if not self._isset(o):
            return NotImplemented
        o = o if isinstance(o, (SSet, SFrozen)) else SSet(list(o))
        return len(self) == len(o) and all(x in o for x in self)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o): return len(self) <= len(o) and self.issubset(o)
    def __lt__(self, o): return len(self) < len(o) and self.issubset(o)
    def __ge__(self, o): return self.issuperset(o)
    def __gt__(self, o): return len(self) > len(o) and self.issuperset(o)

    __hash__ = None

    def __copy__(self):
        return type(self)(list(self))

    def __deepcopy__(self, memo):
        import copy
        return type(self)([copy.deepcopy(x, memo) for x in self])

    def __repr__(self):
        return "{" + ", ".join(map(repr, self)) + "}"


class SFrozen(SSet):
    frozen = True

    def add(self, x): raise AttributeError("'frozenset' object has no attribute 'add'")
    discard = remove = update = clear = pop = add
