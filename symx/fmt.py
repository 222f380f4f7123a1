"""str.format, %-formatting and format specifications over symbolic values."""
import re
import string
from symx import core
from symx.core import Sym, SymInt, SymBool, SymFloat, SymRat, Unsupported
from symx.sstr import SymStr, OpaqueStr, concat, int_digits, is_str, chars, mkstr, as_sym

SPEC = re.compile(r"^(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?$", re.S)


def to_str(x):
    """str(x)"""
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymBool):
        return "True" if x else "False"
    if isinstance(x, SymInt):
        return OpaqueStr(x, "int")
    if isinstance(x, (SymFloat,)):
        return OpaqueStr(x, "float")
    if isinstance(x, SymRat):
        return str(core.ENG.concretise(x))
    if isinstance(x, (str, int, float, bytes, type(None))):
        return str(x)
    if isinstance(x, type):
        return str(x)
    if isinstance(x, BaseException):
        if len(x.args) == 1:
            return to_repr(x.args[0]) if isinstance(x, KeyError) else to_str(x.args[0])
        if not x.args:
            return ""
        return to_repr(tuple(x.args))
    f = type(x).__str__
    if f is object.__str__:
        return to_repr(x)
    if f in (list.__str__, tuple.__str__, dict.__str__):
        return to_repr(x)
    r = f(x)
    if not is_str(r):
        raise TypeError("__str__ returned non-string (type %s)" % type(r).__name__)
    return r


def to_repr(x):
    if isinstance(x, OpaqueStr):
        return concat(concat("'", x), "'")
    if isinstance(x, SymStr):
        cs = chars(x)
        E = core.ENG
        for c in cs:
            if not isinstance(c, int):
                if not E.decide(core.And(c >= 0x20, c <= 0x7E, c != 39, c != 92)):
                    return repr(E.concretise(x))
        return concat(concat("'", x), "'")
    if isinstance(x, (SymInt, SymBool, SymFloat, SymRat)):
        return to_str(x)
    f = type(x).__repr__
    if f is list.__repr__:
        return concat(concat("[", join(", ", [to_repr(y) for y in x])), "]")
    if f is tuple.__repr__:
        if len(x) == 1:
            return concat(concat("(", to_repr(x[0])), ",)")
        return concat(concat("(", join(", ", [to_repr(y) for y in x])), ")")
    from symx.containers import SDict, SSet
    if f is SDict.__repr__:
        return concat(concat("{", join(", ", [concat(concat(to_repr(k), ": "), to_repr(v))
                                              for k, v in x.items()])), "}")
    if f is SSet.__repr__:
        if not len(x):
            return "set()"
        return concat(concat("{", join(", ", [to_repr(y) for y in x])), "}")
    if f is object.__repr__:
        return "<%s object>" % type(x).__name__
    r = f(x)
    if not is_str(r):
        raise TypeError("__repr__ returned non-string (type %s)" % type(r).__name__)
    return r


def join(sep, items):
    out = ""
    for i, x in enumerate(items):
        out = concat(concat(out, sep), x) if i else x
    return out


def fmt_value(x, spec=""):
    """format(x, spec)"""
    if isinstance(spec, SymStr):
        spec = core.ENG.concretise(spec)
    if not isinstance(x, Sym):
        if isinstance(x, (str, int, float, type(None), bytes)):
            return format(x, spec)
        f = type(x).__format__
        if f is object.__format__:
            if spec:
                raise TypeError("unsupported format string passed to %s.__format__" % type(x).__name__)
            return to_str(x)
        return f(x, spec)
    if not spec:
        return to_str(x)
    m = SPEC.match(spec)
    if not m:
        raise Unsupported("format spec %r" % spec)
    fill, align, sign, alt, zero, width, grp, prec, typ = m.groups()
    width = int(width) if width else 0
    if isinstance(x, SymStr):
        if typ not in (None, "s") or sign or alt or grp or align == "=":
            raise ValueError("Unknown format code '%s' for object of type 'str'" % typ)
        if prec is not None:
            x = x[:int(prec)]
        if zero and not align:
            fill, align = "0", "<"
        return pad(x, width, fill or " ", align or "<")
    if isinstance(x, SymBool):
        x = x._i()
    if isinstance(x, SymInt):
        if typ in (None, "d", "n") and not alt and not grp and prec is None:
            s = "+" if sign == "+" else (" " if sign == " " else "-")
            if zero and not align or (align == "=" and fill == "0"):
                return int_digits(x, width, s, True)
            t = int_digits(x, 0, s)
            return pad(t, width, fill or " ", align or ">")
        if typ in ("f", "F", "e", "g", "%"):
            return format(core.ENG.concretise(x), spec)
        return format(core.ENG.concretise(x), spec)
    return format(core.ENG.concretise(x), spec)


def pad(x, width, fill, align):
    if not width:
        return x
    x = as_sym(x)
    return {"<": x.ljust, ">": x.rjust, "^": x.center}[align](width, fill)


def format_str(f, args, kw):
    """f.format(*args, **kw)"""
    if isinstance(f, SymStr):
        # a symbolic format string: braces decide
        cs = chars(f)
        E = core.ENG
        for c in cs:
            if not isinstance(c, int) and E.decide(core.Or(c == 123, c == 125)):
                f = E.concretise(f)
                break
        else:
            if not any(c in (123, 125) for c in cs if isinstance(c, int)):
                return f
            f = E.concretise(f)
    out = ""
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        if lit:
            out = concat(out, lit)
        if field is None:
            continue
        first, rest = field, ""
        m = re.match(r"^([^.\[]*)(.*)$", field, re.S)
        first, rest = m.groups()
        if first == "":
            obj = args[auto]
            auto += 1
        elif first.isdigit():
            obj = args[int(first)]
        else:
            obj = kw[first]
        for attr, idx in re.findall(r"\.([^.\[]+)|\[([^\]]+)\]", rest):
            if attr:
                obj = getattr(obj, attr)
            else:
                obj = obj[int(idx) if idx.isdigit() else idx]
        if spec and "{" in spec:
            def sub(mm):
                nonlocal auto
                k = mm.group(1)
                if k == "":
                    v = args[auto]
                    auto += 1
                elif k.isdigit():
                    v = args[int(k)]
                else:
                    v = kw[k]
                return str(v)
            spec = re.sub(r"\{([^}]*)\}", sub, spec)
        if conv == "s":
            obj = to_str(obj)
        elif conv in ("r", "a"):
            obj = to_repr(obj)
        out = concat(out, fmt_value(obj, spec or ""))
    return out


PCT = re.compile(r"%(?:\(([^)]*)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])")


def percent(f, args):
    if isinstance(f, SymStr):
        cs = chars(f)
        E = core.ENG
        f = E.concretise(f)
    from symx.containers import SDict
    named = isinstance(args, SDict)
    tup = args if isinstance(args, tuple) else (args,)
    out, pos, i = "", 0, 0
    for m in PCT.finditer(f):
        out = concat(out, f[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == "%":
            out = concat(out, "%")
            continue
        if key is not None:
            v = args[key]
        else:
            if width == "*" or prec == "*":
                raise Unsupported("* in a format")
            if i >= len(tup):
                raise TypeError("not enough arguments for format string")
            v = tup[i]
            i += 1
        if conv == "s":
            v = to_str(v)
        elif conv in ("r", "a"):
            v = to_repr(v)
        elif conv in ("d", "i", "u"):
            if is_str(v):
                raise TypeError("%%%s format: a real number is required, not str" % conv)
            if isinstance(v, (SymFloat, SymRat)):
                v = v.to_int()
            elif isinstance(v, float):
                v = int(v)
        if not isinstance(v, Sym) or isinstance(v, SymFloat):
            if isinstance(v, Sym):
                v = core.ENG.concretise(v)
            spec = "%" + flags + (width or "") + ("." + prec if prec else "") + ("s" if conv in "ra" else conv)
            out = concat(out, spec % (v,))
            continue
        if is_str(v):
            if prec:
                v = v[:int(prec)]
            out = concat(out, pad(v, int(width or 0), " ", "<" if "-" in flags else ">"))
        else:
            spec = ("+" if "+" in flags else (" " if " " in flags else ""))
            w = width or ""
            if "-" in flags:
                spec = "<" + spec + w
            elif "0" in flags:
                spec = spec + "0" + w
            else:
                spec = spec + w
            out = concat(out, fmt_value(v, spec + ("d" if conv in "diu" else conv)))
    if not named and not isinstance(args, tuple) and i == 0 and not is_str(args) and False:
        pass
    if not named and i < len(tup):
        raise TypeError("not all arguments converted during string formatting")
    return concat(out, f[pos:])
