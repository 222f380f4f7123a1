"""Symbolic strings: bounded sequences of code points.

`cs` holds python ints or z3 Int terms; the length is a python int or a z3 Int that ranges
over the menu `lens`.  While the length is symbolic the string is padded with 0, so equality,
ordering, case mapping and containment need no fork; the other operations fork on the length.
"""
import z3
from symx import core
from symx.core import (Sym, SymInt, SymBool, SymFloat, SymRat, And, Or, Not, mkbool, mkint, ie,
                       Unsupported, Pruned)

# Alphabet of symbolic characters: printable ASCII plus representatives of the classes the
# code can distinguish (non-ASCII letters with case, non-ASCII space, symbol, astral plane).
EXTRA = (0xA0, 0xC9, 0xE9, 0x20AC, 0x1F600)
CONTROL_WS = (9, 10, 13)
# characters XML cannot carry or that are easily taken for white space: only where asked for
WIDE = (0x01, 0x0B, 0x0C, 0x1C, 0x1F, 0x7F, 0x85, 0xFEFF)
TABLE = sorted(set(range(0x20, 0x7F)) | set(EXTRA) | set(CONTROL_WS) | set(WIDE))


def in_alphabet(c, extra=True, ws=False):
    t = [z3.And(c >= 0x20, c <= 0x7E)]
    if extra:
        t += [c == x for x in EXTRA]
    if ws:
        t += [c == x for x in CONTROL_WS]
    return z3.Or(*t) if len(t) > 1 else t[0]


def _runs(pred):
    """Intervals of TABLE code points satisfying pred (holes outside the alphabet are free)."""
    out = []
    cur = None
    for c in TABLE:
        if pred(c):
            if cur is None:
                cur = [c, c]
            else:
                cur[1] = c
        else:
            if cur:
                out.append(cur)
            cur = None
    if cur:
        out.append(cur)
    return out


def tabchar(var, table):
    """Code point table[var] of a small index variable; remembered so that later tests on the
    character are answered from the table instead of the solver."""
    if isinstance(var, int):
        return table[var]
    e = z3.IntVal(table[-1])
    if table == tuple(range(table[0], table[0] + len(table))):
        e = var + table[0]
    else:
        # runs of consecutive code points
        runs = []
        for i, t in enumerate(table):
            if runs and t - i == runs[-1][1]:
                runs[-1][0] = i
            else:
                runs.append([i, t - i])
        e = var + runs[-1][1]
        for hi, off in reversed(runs[:-1]):
            e = z3.If(var <= hi, var + off, e)
    core.ENG.hooks.setdefault("tab", {})[e.get_id()] = (e, var, table)
    return e


def tab_of(c):
    if isinstance(c, int):
        return None
    t = core.ENG.hooks.get("tab")
    return t.get(c.get_id()) if t else None


def tab_bool(var, flags):
    """z3 Bool: flags[var]"""
    if all(flags):
        return True
    if not any(flags):
        return False
    return Or(*[var == i for i, f in enumerate(flags) if f])


DEC = tuple(range(48, 58))
HEXL = tuple(ord(c) for c in "0123456789abcdef")

_pred_cache = {}


def char_pred(c, name, pred):
    """z3 Bool / bool: pred(chr(c)) for a code point in the alphabet."""
    if isinstance(c, int):
        return bool(pred(c))
    t = tab_of(c)
    if t:
        return tab_bool(t[1], [bool(pred(x)) for x in t[2]])
    runs = _pred_cache.get(name)
    if runs is None:
        runs = _pred_cache[name] = _runs(pred)
    return Or(*[(c == a) if a == b else z3.And(c >= a, c <= b) for a, b in runs])


_map_cache = {}


def char_map(c, name, f):
    if isinstance(c, int):
        return f(c)
    t = tab_of(c)
    if t:
        nt = tuple(f(x) for x in t[2])
        return c if nt == t[2] else tabchar(t[1], nt)
    runs = _map_cache.get(name)
    if runs is None:
        runs = []
        for x in TABLE:
            d = f(x) - x
            if d:
                if runs and runs[-1][2] == d and runs[-1][1] == x - 1:
                    runs[-1][1] = x
                else:
                    runs.append([x, x, d])
        _map_cache[name] = runs
    e = c
    for a, b, d in runs:
        e = z3.If((c == a) if a == b else z3.And(c >= a, c <= b), c + d, e)
    return e


def _single(f):
    def g(c):
        r = f(chr(c))
        return ord(r) if len(r) == 1 else c
    return g


LOWER = _single(str.lower)
UPPER = _single(str.upper)
CASEFOLD = _single(str.casefold)
SWAP = _single(str.swapcase)


def is_space(c):
    return char_pred(c, "space", lambda x: chr(x).isspace())


def ceq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a is b:
        return True
    if isinstance(a, int):
        a, b = b, a
    t = tab_of(a)
    if t:
        if isinstance(b, int):
            return tab_bool(t[1], [x == b for x in t[2]])
        u = tab_of(b)
        if u and u[2] == t[2] and len(set(t[2])) == len(t[2]):
            return t[1] == u[1]
    return a == b


def mkstr(cs):
    if all(isinstance(c, int) for c in cs):
        return "".join(map(chr, cs))
    return SymStr(list(cs))


def as_sym(x):
    """SymStr view of a str-like value."""
    if isinstance(x, SymStr):
        return x
    return SymStr([ord(c) for c in x])


def is_str(x):
    return isinstance(x, (str, SymStr))


def need_str(x, what="str"):
    if not is_str(x):
        raise TypeError("must be %s, not %s" % (what, tname(x)))
    return x


def tname(x):
    if isinstance(x, SymStr):
        return "str"
    if isinstance(x, SymBool):
        return "bool"
    if isinstance(x, SymInt):
        return "int"
    if isinstance(x, (SymFloat, SymRat)):
        return "float"
    return type(x).__name__


class SymStr(Sym):
    __slots__ = ("cs", "L", "lens", "_eqc")

    def __init__(self, cs, L=None, lens=None):
        self.cs = cs
        self.L = len(cs) if L is None else L
        self.lens = (self.L,) if L is None else tuple(lens)

    # -------------------------------------------------- shape
    @property
    def lazy(self):
        return not isinstance(self.L, int)

    def _fix(self):
        if not isinstance(self.L, int):
            n = core.ENG.pick(self.L, self.lens)
            self.cs = self.cs[:n]
            self.L = n
            self.lens = (n,)
        return self

    def _cs(self):
        self._fix()
        return self.cs

    def sx_len(self):
        return mkint(self.L)

    def __len__(self):
        self._fix()
        return self.L

    def __bool__(self):
        if isinstance(self.L, int):
            return self.L > 0
        if 0 not in self.lens:
            return True
        return core.ENG.decide(self.L > 0)

    # -------------------------------------------------- comparison
    def eq_expr(self, o):
        if isinstance(o, str):
            n = len(o)
            if n not in self.lens:
                return False
            parts = []
            if not isinstance(self.L, int):
                parts.append(self.L == n)
            for c, d in zip(self.cs, o):
                e = ceq(c, ord(d))
                if e is False:
                    return False
                parts.append(e)
            return And(*parts)
        if isinstance(o, OpaqueStr):
            return o.eq_expr(self)
        if not set(self.lens) & set(o.lens):
            return False
        if o is self:
            return True
        parts = []
        if isinstance(self.L, int) and isinstance(o.L, int):
            pass
        else:
            parts.append(self.L == o.L)
        for c, d in zip(self.cs, o.cs):
            e = ceq(c, d)
            if e is False:
                return False
            parts.append(e)
        return And(*parts)

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkbool(self.eq_expr(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkbool(Not(self.eq_expr(o)))
        return NotImplemented

    __hash__ = Sym.__hash__

    def _lt(self, o, strict=True):
        a = self.cs
        b = [ord(c) for c in o] if isinstance(o, str) else as_plain(o).cs
        n = max(len(a), len(b))
        r = not strict
        for i in range(n - 1, -1, -1):
            x = a[i] if i < len(a) else 0
            y = b[i] if i < len(b) else 0
            if isinstance(x, int) and isinstance(y, int):
                if x < y:
                    r = True
                elif x > y:
                    r = False
                continue
            r = Or(x < y, And(x == y, r))
        return mkbool(r)

    def __lt__(self, o):
        return self._lt(o) if is_str(o) else NotImplemented

    def __le__(self, o):
        return self._lt(o, False) if is_str(o) else NotImplemented

    def __gt__(self, o):
        return core.snot(self._lt(o, False)) if is_str(o) else NotImplemented

    def __ge__(self, o):
        return core.snot(self._lt(o)) if is_str(o) else NotImplemented

    # -------------------------------------------------- building
    def __add__(self, o):
        if not is_str(o):
            if isinstance(o, Sym) or not hasattr(type(o), "__radd__"):
                raise TypeError('can only concatenate str (not "%s") to str' % tname(o))
            return NotImplemented
        return concat(self, o)

    def __radd__(self, o):
        if not isinstance(o, str):
            raise TypeError('can only concatenate str (not "%s") to str' % tname(o))
        return concat(o, self)

    def __mul__(self, n):
        if isinstance(n, SymInt):
            n = n.__index__()
        if not isinstance(n, int):
            raise TypeError("can't multiply sequence by non-int of type '%s'" % tname(n))
        return mkstr(self._cs() * n)

    __rmul__ = __mul__

    def __mod__(self, args):
        from symx import fmt
        return fmt.percent(self, args)

    def __iter__(self):
        for c in list(self._cs()):
            yield mkstr([c])

    def __reversed__(self):
        return iter([mkstr([c]) for c in reversed(self._cs())])

    def __getitem__(self, i):
        cs = self._cs()
        if isinstance(i, slice):
            def ix(v):
                return v.__index__() if isinstance(v, SymInt) else v
            return mkstr(cs[slice(ix(i.start), ix(i.stop), ix(i.step))])
        if isinstance(i, SymInt):
            i = i.__index__()
        if not isinstance(i, int):
            raise TypeError("string indices must be integers, not '%s'" % tname(i))
        if not -len(cs) <= i < len(cs):
            raise IndexError("string index out of range")
        return mkstr([cs[i]])

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        if not is_str(x):
            raise TypeError("'in <string>' requires string as left operand, not %s" % tname(x))
        if isinstance(x, SymStr):
            x._fix()
        n = len(x)
        if n == 0:
            return True
        xs = chars(x)
        if not isinstance(x, str):
            self._fix()
        return mkbool(Or(*[And(*[ceq(self.cs[i + j], xs[j]) for j in range(n)])
                           for i in range(len(self.cs) - n + 1)]))

    # -------------------------------------------------- searching
    def _match_at(self, cs, i, xs):
        return core.ENG.decide(And(*[ceq(cs[i + j], xs[j]) for j in range(len(xs))])) \
            if i + len(xs) <= len(cs) else False

    def find(self, x, start=0, end=None):
        xs = chars(need_str(x))
        cs = self._cs()
        start, end, _ = slice(start, end).indices(len(cs))
        if start > len(cs):
            return -1
        for i in range(start, end - len(xs) + 1):
            if self._match_at(cs, i, xs):
                return i
        return -1

    def rfind(self, x, start=0, end=None):
        xs = chars(need_str(x))
        cs = self._cs()
        start, end, _ = slice(start, end).indices(len(cs))
        for i in range(end - len(xs), start - 1, -1):
            if self._match_at(cs, i, xs):
                return i
        return -1

    def index(self, x, start=0, end=None):
        i = self.find(x, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, x, start=0, end=None):
        i = self.rfind(x, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, x, start=0, end=None):
        xs = chars(need_str(x))
        s = self[start:end]
        cs = chars(s)
        if not xs:
            return len(cs) + 1
        i = n = 0
        while i + len(xs) <= len(cs):
            if self._match_at(cs, i, xs):
                n += 1
                i += len(xs)
            else:
                i += 1
        return n

    def startswith(self, x, start=0, end=None):
        if isinstance(x, tuple):
            return any(self.startswith(y, start, end) for y in x)
        need_str(x, "str or a tuple of str")
        if start or end is not None:
            return as_sym(self[start:end]).startswith(x)
        xs = chars(x)
        if len(xs) > len(self.cs):
            return False
        return mkbool(And(*[ceq(self.cs[i], xs[i]) for i in range(len(xs))]))

    def endswith(self, x, start=0, end=None):
        if isinstance(x, tuple):
            return any(self.endswith(y, start, end) for y in x)
        need_str(x, "str or a tuple of str")
        if start or end is not None:
            return as_sym(self[start:end]).endswith(x)
        xs = chars(x)
        n = len(xs)
        alts = []
        for l in self.lens:
            if l < n:
                continue
            e = And(*[ceq(self.cs[l - n + j], xs[j]) for j in range(n)])
            if not isinstance(self.L, int):
                e = And(self.L == l, e)
            alts.append(e)
        return mkbool(Or(*alts))

    # -------------------------------------------------- transforming
    def _map(self, name, f):
        return SymStr([char_map(c, name, f) for c in self.cs], self.L if self.lazy else None, self.lens) \
            if self.lazy else mkstr([char_map(c, name, f) for c in self.cs])

    def lower(self): return self._map("lower", LOWER)
    def upper(self): return self._map("upper", UPPER)
    def casefold(self): return self._map("casefold", CASEFOLD)
    def swapcase(self): return self._map("swap", SWAP)

    def capitalize(self):
        cs = self._cs()
        return mkstr([char_map(c, "lower" if i else "upper", LOWER if i else UPPER)
                      for i, c in enumerate(cs)])

    def title(self):
        out = []
        prev = False
        for c in self._cs():
            out.append(char_map(c, "lower", LOWER) if prev else char_map(c, "upper", UPPER))
            prev = core.ENG.decide(char_pred(c, "alpha", lambda x: chr(x).isalpha()))
        return mkstr(out)

    def _all(self, name, f):
        cs = self._cs()
        if not cs:
            return False
        return mkbool(And(*[char_pred(c, name, lambda x: f(chr(x))) for c in cs]))

    def isspace(self): return self._all("space", str.isspace)
    def isdigit(self): return self._all("digit", str.isdigit)
    def isdecimal(self): return self._all("decimal", str.isdecimal)
    def isnumeric(self): return self._all("numeric", str.isnumeric)
    def isalpha(self): return self._all("alpha", str.isalpha)
    def isalnum(self): return self._all("alnum", str.isalnum)
    def isprintable(self):
        return self._all("printable", str.isprintable) if len(self) else True

    def isascii(self):
        return mkbool(And(*[char_pred(c, "ascii", lambda x: x < 128) for c in self._cs()]))

    def _cased(self, up):
        cs = self._cs()
        has = Or(*[char_pred(c, "isupper" if up else "islower",
                             (lambda x: chr(x).isupper()) if up else (lambda x: chr(x).islower())) for c in cs])
        bad = Or(*[char_pred(c, "islower" if up else "isupper",
                             (lambda x: chr(x).islower()) if up else (lambda x: chr(x).isupper())) for c in cs])
        return mkbool(And(has, Not(bad)))

    def isupper(self): return self._cased(True)
    def islower(self): return self._cased(False)

    def isidentifier(self):
        return core.ENG.concretise(self).isidentifier()

    def _strip_pred(self, chs):
        if chs is None:
            return lambda c: core.ENG.decide(is_space(c))
        xs = chars(need_str(chs))
        return lambda c: core.ENG.decide(Or(*[ceq(c, x) for x in xs]))

    def strip(self, chs=None):
        return as_sym(self.lstrip(chs)).rstrip(chs)

    def lstrip(self, chs=None):
        p = self._strip_pred(chs)
        cs = self._cs()
        i = 0
        while i < len(cs) and p(cs[i]):
            i += 1
        return mkstr(cs[i:])

    def rstrip(self, chs=None):
        p = self._strip_pred(chs)
        cs = self._cs()
        n = len(cs)
        while n > 0 and p(cs[n - 1]):
            n -= 1
        return mkstr(cs[:n])

    def removeprefix(self, x):
        return self[len(x):] if self.startswith(x) else self

    def removesuffix(self, x):
        return self[:len(self) - len(x)] if x and self.endswith(x) else self

    def split(self, sep=None, maxsplit=-1):
        cs = self._cs()
        out = []
        if sep is None:
            i, n = 0, len(cs)
            while True:
                while i < n and core.ENG.decide(is_space(cs[i])):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(as_sym(mkstr(cs[i:])).rstrip())
                    break
                j = i
                while j < n and not core.ENG.decide(is_space(cs[j])):
                    j += 1
                out.append(mkstr(cs[i:j]))
                i = j
            return out
        xs = chars(need_str(sep))
        if not xs:
            raise ValueError("empty separator")
        i = start = 0
        while i + len(xs) <= len(cs):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self._match_at(cs, i, xs):
                out.append(mkstr(cs[start:i]))
                i += len(xs)
                start = i
            else:
                i += 1
        out.append(mkstr(cs[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        cs = self._cs()
        if sep is None:
            rev = as_sym(mkstr(cs[::-1])).split(None, maxsplit)
        else:
            rev = as_sym(mkstr(cs[::-1])).split(mkstr(chars(sep)[::-1]), maxsplit)
        return [r[::-1] for r in rev[::-1]]

    def splitlines(self, keepends=False):
        cs = self._cs()
        out, start, i = [], 0, 0
        while i < len(cs):
            if core.ENG.decide(char_pred(cs[i], "nl", lambda x: x in (10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029))):
                j = i + 1
                if j < len(cs) and core.ENG.decide(And(ceq(cs[i], 13), ceq(cs[j], 10))):
                    j += 1
                out.append(mkstr(cs[start:j if keepends else i]))
                start = i = j
            else:
                i += 1
        if start < len(cs):
            out.append(mkstr(cs[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep):])

    def replace(self, old, new, count=-1):
        cs = self._cs()
        xs, ys = chars(need_str(old)), chars(need_str(new))
        if not xs:
            out = list(ys)
            for c in cs:
                out += [c] + list(ys)
            return mkstr(out)
        if len(xs) == 1 and len(ys) == 1 and count < 0:
            x, y = xs[0], ys[0]
            return mkstr([(y if c == x else c) if isinstance(c, int) and isinstance(x, int)
                          else z3.If(c == x, _z(y), _z(c)) for c in cs])
        out, i, n = [], 0, 0
        while i < len(cs):
            if (count < 0 or n < count) and self._match_at(cs, i, xs):
                out += ys
                i += len(xs)
                n += 1
            else:
                out.append(cs[i])
                i += 1
        return mkstr(out)

    def translate(self, table):
        out = []
        for c in self._cs():
            if isinstance(c, int):
                r = chr(c).translate(table)
                out += chars(r)
                continue
            done = False
            for k in list(table.keys()):
                if core.ENG.decide(c == k):
                    r = table[k]
                    if r is None:
                        pass
                    elif isinstance(r, int):
                        out.append(r)
                    else:
                        out += chars(r)
                    done = True
                    break
            if not done:
                out.append(c)
        return mkstr(out)

    def join(self, items):
        items = list(items)
        out = None
        for i, x in enumerate(items):
            if not is_str(x):
                raise TypeError("sequence item %d: expected str instance, %s found" % (i, tname(x)))
            out = x if out is None else concat(concat(out, self), x)
        return "" if out is None else out

    def _pad(self, width, fill, where):
        if isinstance(width, SymInt):
            width = width.__index__()
        cs = self._cs()
        n = width - len(cs)
        if n <= 0:
            return self
        f = [ord(fill)]
        if where == "l":
            return mkstr(cs + f * n)
        if where == "r":
            return mkstr(f * n + cs)
        left = n // 2 + (n & width & 1)
        return mkstr(f * left + cs + f * (n - left))

    def ljust(self, w, fill=" "): return self._pad(w, fill, "l")
    def rjust(self, w, fill=" "): return self._pad(w, fill, "r")
    def center(self, w, fill=" "): return self._pad(w, fill, "c")

    def zfill(self, w):
        cs = self._cs()
        n = w - len(cs)
        if n <= 0:
            return self
        if cs and core.ENG.decide(Or(ceq(cs[0], 43), ceq(cs[0], 45))):
            return mkstr(cs[:1] + [48] * n + cs[1:])
        return mkstr([48] * n + cs)

    def expandtabs(self, n=8):
        return core.ENG.concretise(self).expandtabs(n)

    def encode(self, encoding="utf-8", errors="strict"):
        return SymBytes(self)

    def format(self, *a, **k):
        from symx import fmt
        return fmt.format_str(self, a, k)

    def format_map(self, m):
        from symx import fmt
        return fmt.format_str(self, (), m)

    def __str__(self):
        return core.ENG.concretise(self)

    def __format__(self, spec):
        return format(core.ENG.concretise(self), spec)

    # -------------------------------------------------- models
    def py_value(self, m):
        n = self.L if isinstance(self.L, int) else m.eval(self.L, model_completion=True).as_long()
        out = []
        for c in self.cs[:n]:
            v = c if isinstance(c, int) else m.eval(c, model_completion=True).as_long()
            out.append(chr(v) if 0 < v <= 0x10FFFF else "?")
        return "".join(out)

    in_model = py_value

    def equals_value(self, v):
        e = self.eq_expr(v)
        return z3.BoolVal(e) if isinstance(e, bool) else e

    def __repr__(self):
        return "SymStr(len=%s)" % (self.L,)


def _z(c):
    return z3.IntVal(c) if isinstance(c, int) else c


def as_plain(x):
    if isinstance(x, OpaqueStr):
        return x.expand()
    return as_sym(x)


def chars(x):
    """List of code points (forks on the length if it is symbolic)."""
    if isinstance(x, str):
        return [ord(c) for c in x]
    if isinstance(x, OpaqueStr):
        return x.expand()._cs()
    return x._cs()


def concat(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if isinstance(a, str) and not a:
        return b
    if isinstance(b, str) and not b:
        return a
    a, b = as_plain(a), as_plain(b)
    if a.lazy and a is b:
        a._fix()
    if (a.lazy or b.lazy) and max(a.lens) + max(b.lens) <= 24 and len(a.lens) * len(b.lens) <= 30:
        if not a.lazy:
            n = a.L
            return SymStr(a.cs + b.cs, n + b.L, [n + l for l in b.lens])
        lens = sorted({x + y for x in a.lens for y in b.lens})
        out = []
        ma, mb = len(a.cs), len(b.cs)
        for i in range(max(lens)):
            e = None
            for l in sorted(a.lens, reverse=True):
                c = a.cs[i] if i < l else (b.cs[i - l] if i - l < mb else 0)
                c = _z(c)
                e = c if e is None else z3.If(a.L == l, c, e)
            out.append(e)
        return SymStr(out, a.L + b.L, lens)
    return mkstr(a._cs() + b._cs())


def fresh_str(name, lens, alpha=True, ws=False, domain=None):
    """A fresh symbolic string; domain: optional predicate on a code point term."""
    lens = tuple(sorted(set(lens)))
    E = core.ENG
    n = max(lens)
    cs = [z3.Int("%s#%d" % (name, i)) for i in range(n)]
    dom = domain or (lambda c: in_alphabet(c, alpha, ws))
    if domain is None and not ws:
        E.hooks.setdefault("nows", {}).update((c.get_id(), c) for c in cs)
    if len(lens) == 1:
        for c in cs:
            E.add(dom(c))
        return SymStr(cs) if n else ""
    L = z3.Int("%s#len" % name)
    E.add(z3.Or(*[L == l for l in lens]))
    lo = lens[0]
    for i, c in enumerate(cs):
        if i < lo:
            E.add(dom(c))
        else:
            E.add(z3.If(L > i, dom(c), c == 0))
    return SymStr(cs, L, lens)


FLOAT_CHARS = set("0123456789.e+-infa")


class OpaqueStr(SymStr):
    """str() of a symbolic number: remembered by its source, spelled out only on demand."""
    __slots__ = ("src", "kind", "_exp")

    def __init__(self, src, kind):
        self.src = src
        self.kind = kind           # 'int' | 'float'
        self._exp = None

    def expand(self):
        if self._exp is None:
            if self.kind == "int":
                self._exp = as_sym(int_digits(self.src))
            else:
                self._exp = as_sym(repr(core.ENG.concretise(self.src)))
        return self._exp

    # SymStr machinery goes through these
    @property
    def cs(self): return self.expand().cs
    @property
    def L(self): return self.expand().L
    @property
    def lens(self): return self.expand().lens

    def _fix(self):
        self.expand()
        return self

    def __bool__(self): return True

    def eq_expr(self, o):
        if isinstance(o, OpaqueStr):
            if o.kind == self.kind:
                r = self.src == o.src if self.kind == "int" else self.src.same(o.src)
                return r.e if isinstance(r, SymBool) else bool(r)
            return self.expand().eq_expr(o.expand()) if self.kind == "int" else o.eq_expr(self)
        if isinstance(o, str):
            if self.kind == "int":
                try:
                    v = int(o)
                except ValueError:
                    return False
                if str(v) != o:
                    return False
                return self.src.e == v
            try:
                v = float(o)
            except ValueError:
                return False
            if repr(v) != o:
                return False
            r = self.src.same(v) if isinstance(self.src, SymFloat) else self.src == v
            return r.e if isinstance(r, SymBool) else bool(r)
        return self.expand().eq_expr(o)

    def contains(self, x):
        if isinstance(x, str) and x:
            ok = set("-0123456789") if self.kind == "int" else FLOAT_CHARS
            if any(c not in ok for c in x):
                return False
        return SymStr.contains(self.expand(), x)

    def strip(self, chs=None): return self if chs is None else self.expand().strip(chs)
    def lstrip(self, chs=None): return self if chs is None else self.expand().lstrip(chs)
    def rstrip(self, chs=None): return self if chs is None else self.expand().rstrip(chs)
    def lower(self): return self
    def casefold(self): return self
    def upper(self): return self if self.kind == "int" else self.expand().upper()
    def split(self, sep=None, maxsplit=-1):
        return [self] if sep is None else self.expand().split(sep, maxsplit)

    def _map(self, name, f): return self.expand()._map(name, f)

    def replace(self, old, new, count=-1):
        if isinstance(old, str) and old and any(c not in FLOAT_CHARS for c in old):
            return self
        return self.expand().replace(old, new, count)

    def py_value(self, m):
        v = self.src.py_value(m)
        return str(v)

    in_model = py_value

    def equals_value(self, v):
        e = self.eq_expr(v)
        return z3.BoolVal(e) if isinstance(e, bool) else e

    def __repr__(self):
        return "OpaqueStr(%r)" % (self.src,)


def int_digits(v, width=0, sign="-", zero=True, group=None):
    """Decimal text of an int-like value, at least `width` characters."""
    x = ie(v)
    if isinstance(x, int):
        return format(x, ("+" if sign == "+" else "") + ("0" if zero else "") + (str(width) if width else "") + "d")
    E = core.ENG
    neg = E.decide(x < 0)
    a = -x if neg else x
    pre = [45] if neg else ([43] if sign == "+" else ([32] if sign == " " else []))
    need = max(1, width - len(pre)) if zero else 1
    n = need
    limit = 21
    while not E.decide(a < 10 ** n):
        n += 1
        if n > limit:
            raise Pruned("decimal text longer than %d digits" % limit)
    if need == 1 or n > need:
        pass
    memo = E.hooks.setdefault("intdigits", {})
    k = (a.get_id(), n)
    if k in memo:
        cs = memo[k][1]
        return mkstr(([32] * (width - len(pre) - n) if not zero else []) + pre + cs)
    ds = [E.fresh("dig") for _ in range(n)]
    for d in ds:
        E.add(z3.And(d >= 0, d <= 9))
    E.add(a == z3.Sum([d * 10 ** (n - 1 - i) for i, d in enumerate(ds)]))
    if n > need and n > 1:
        E.add(ds[0] >= 1)
    cs = [tabchar(d, DEC) for d in ds]
    E.hooks.setdefault("digsrc", {})[tuple(c.get_id() for c in cs)] = (a, cs)
    memo[k] = (a, cs)
    cs = pre + cs
    if not zero and len(cs) < width:
        cs = [32] * (width - len(cs)) + cs
    return mkstr(cs)


def digit_value(c):
    if isinstance(c, int):
        return c - 48
    t = tab_of(c)
    if t and t[2] == DEC:
        return t[1]
    return z3.simplify(c - 48)


def parse_int(s, base=10):
    """int(s, base) for a symbolic string; raises ValueError like CPython."""
    if isinstance(s, OpaqueStr):
        if s.kind == "int" and base == 10:
            return s.src
        if s.kind == "float":
            raise ValueError("invalid literal for int() with base 10: '...'")
        s = s.expand()
    E = core.ENG
    t = as_sym(as_sym(s).strip())
    cs = list(t._cs())
    bad = ValueError("invalid literal for int() with base %d: '...'" % base)
    neg = False
    if cs and not isinstance(cs[0], int) or (cs and cs[0] in (43, 45)):
        if E.decide(ceq(cs[0], 45)):
            neg = True
            cs = cs[1:]
        elif E.decide(ceq(cs[0], 43)):
            cs = cs[1:]
    if not cs:
        raise bad
    val = 0
    prev_us = True
    for i, c in enumerate(cs):
        if base == 10:
            ok = char_pred(c, "dec10", lambda x: 48 <= x <= 57)
            if not E.decide(ok):
                if not prev_us and i + 1 < len(cs) and E.decide(ceq(c, 95)):
                    prev_us = True
                    continue
                raise bad
            d = digit_value(c)
        elif base == 16:
            if not E.decide(char_pred(c, "hex16", lambda x: chr(x) in "0123456789abcdefABCDEF")):
                if not prev_us and i + 1 < len(cs) and E.decide(ceq(c, 95)):
                    prev_us = True
                    continue
                raise bad
            d = hex_value(c)
        else:
            raise Unsupported("int() base %d" % base)
        prev_us = False
        val = val * base + d
    if prev_us:
        raise bad
    if not isinstance(val, int):
        src = None
        if base == 10 and not any(isinstance(c, int) for c in cs):
            src = E.hooks.get("digsrc", {}).get(tuple(c.get_id() for c in cs))
        val = src[0] if src else z3.simplify(val)
    return mkint(-val if neg else val)


def hex_value(c):
    if isinstance(c, int):
        return int(chr(c), 16)
    t = tab_of(c)
    if t and tuple(ord(chr(x).lower()) for x in t[2]) == HEXL:
        return t[1]
    return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))


def parse_float(s):
    if isinstance(s, OpaqueStr):
        if s.kind == "float":
            return s.src
        return core.int_to_float(s.src) if isinstance(s.src, SymInt) else SymFloat(core.fe(s.src))
    E = core.ENG
    cs = chars(as_sym(as_sym(s).strip()))
    # refuse early when a character can not occur in a float literal
    ok = "0123456789.eE+-_infatyINFATY"
    for c in cs:
        if not E.decide(char_pred(c, "floatc", lambda x: chr(x) in ok)):
            raise ValueError("could not convert string to float: '...'")
    if not cs:
        raise ValueError("could not convert string to float: ''")
    # decimal literals with digits only: exact through the int reading
    if all(isinstance(c, int) for c in cs):
        return float("".join(map(chr, cs)))
    if E.decide(And(*[char_pred(c, "dec10", lambda x: 48 <= x <= 57) for c in cs])) and len(cs) <= 15:
        val = 0
        for c in cs:
            val = val * 10 + digit_value(c)
        src = E.hooks.get("digsrc", {}).get(tuple(c.get_id() for c in cs)) if not any(isinstance(c, int) for c in cs) else None
        val = src[0] if src else z3.simplify(val) if not isinstance(val, int) else val
        return float(val) if isinstance(val, int) else core.int_to_float(SymInt(val))
    return float(E.concretise(mkstr(cs)))


class SymBytes(Sym):
    """str.encode() of a symbolic string."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def decode(self, *a, **k):
        return self.s

    def __eq__(self, o):
        if isinstance(o, SymBytes):
            return self.s == o.s
        if isinstance(o, bytes):
            return self.s == o.decode()
        return NotImplemented

    __hash__ = Sym.__hash__

    def __bool__(self):
        return bool(self.s)

    def in_model(self, m):
        return self.s.in_model(m) if isinstance(self.s, Sym) else self.s
