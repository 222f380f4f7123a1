"""Environment of the code under test: files, gzip, uuid, urllib, os, collections."""
import builtins
import collections
import functools
import gzip as _gzip
import io
import os as _os
import types
import urllib.error
import urllib.parse
import uuid as _uuid

import z3
from symx import core, hooks
from symx.core import Sym, SymInt, Unsupported, mkbool, mkint, And, Or
from symx.sstr import (SymStr, SymBytes, is_str, tname, concat, chars, mkstr, as_sym, hex_value, char_pred, tabchar, HEXL)
from symx.containers import SDict, SSet, SFrozen, SOrderedDict, SDefaultDict, SCounter, HashVal
from symx.xmlstub import XmlText, XmlBytes, ETModule, MinidomModule, SaxModule
from symx.dt import DatetimeModule, TimeModule, CalendarModule
from symx.rex import ReModule


# ------------------------------------------------------------------ files
class VFile:
    """An in-memory file; its content is a list of chunks (text, bytes or XML tokens)."""
    def __init__(self, name, mode, store, gz=False):
        self.name, self.mode, self.store, self.gz = name, mode, store, gz
        self.closed = False
        self.binary = "b" in mode
        self.encoding = None if self.binary else "utf-8"
        self.pos = 0

    def _open(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def write(self, data):
        self._open()
        if not any(c in self.mode for c in "wax+"):
            raise io.UnsupportedOperation("not writable")
        text = is_str(data) or isinstance(data, XmlText)
        byts = isinstance(data, (bytes, bytearray, SymBytes, XmlBytes))
        if not text and not byts:
            raise TypeError("write() argument must be %s, not %s" % ("bytes-like" if self.binary else "str", tname(data)))
        if self.binary and text:
            raise TypeError("a bytes-like object is required, not 'str'")
        if not self.binary and byts:
            raise TypeError("write() argument must be str, not bytes")
        self.store["chunks"].append(data)
        return 1

    def writelines(self, it):
        for x in it:
            self.write(x)

    def xml_content(self):
        self._open()
        if self.gz != self.store["gz"]:
            if self.gz:
                raise _gzip.BadGzipFile("Not a gzipped file")
            import xml.sax
            from symx.xmlstub import _Loc
            raise xml.sax.SAXParseException("not well-formed (invalid token)", None, _Loc())
        ch = self.store["chunks"][self.pos:]
        self.pos = len(self.store["chunks"])
        return list(ch)

    def read(self, n=-1):
        ch = self.xml_content()
        if not ch:
            return b"" if self.binary else ""
        if len(ch) == 1:
            x = ch[0]
            if self.binary and (is_str(x) or isinstance(x, XmlText)):
                return x.encode()
            if not self.binary and isinstance(x, (bytes, SymBytes, XmlBytes)):
                return x.decode()
            return x
        if all(is_str(x) for x in ch):
            out = ""
            for x in ch:
                out = concat(out, x)
            return out.encode() if self.binary else out
        raise Unsupported("reading mixed file content")

    def readline(self): raise Unsupported("readline")
    def readlines(self): raise Unsupported("readlines")
    def __iter__(self): raise Unsupported("iterating a file")
    def flush(self): pass
    def close(self): self.closed = True
    def readable(self): return "r" in self.mode or "+" in self.mode
    def writable(self): return "r" not in self.mode or "+" in self.mode
    def seekable(self): return True

    def seek(self, p, w=0):
        if p == 0 and w == 0:
            self.pos = 0
            return 0
        raise Unsupported("seek")

    def tell(self): return self.pos
    def __enter__(self):
        self._open()
        return self
    def __exit__(self, *a):
        self.close()
        return False


def norm_path(path):
    """Without doubled separators and dots."""
    import posixpath
    if isinstance(path, SymStr):
        cs = chars(path)
        out = []
        for c in cs:
            if not isinstance(c, int):
                c = z3.simplify(c)
                c = c.as_long() if z3.is_int_value(c) else c
            slash = c == 47 if isinstance(c, int) else (bool(out) and isinstance(out[-1], int) and out[-1] == 47 and core.ENG.decide(c == 47))
            if slash and out and isinstance(out[-1], int) and out[-1] == 47:
                continue
            out.append(47 if slash else c)
        return mkstr(out)
    path = _os.fspath(path)
    return posixpath.normpath(path) if isinstance(path, str) and path else path


def vfs_open(path, mode="r", gz=False):
    fs = core.ENG.vfs
    if isinstance(path, VFile):
        f = VFile(path.name, path.mode if mode is None else mode, path.store, gz)
        return f
    name, path = path, norm_path(path)
    e = fs.find(path)
    if e is not None and e.get("dir"):
        raise IsADirectoryError(21, "Is a directory", path)
    if "r" in mode:
        if e is None:
            raise FileNotFoundError(2, "No such file or directory", path)
        return VFile(name, mode, e, gz)
    if "x" in mode and e is not None:
        raise FileExistsError(17, "File exists", path)
    if "a" in mode and e is not None:
        if not e["chunks"]:
            e["gz"] = gz
        elif e["gz"] != gz:
            e["gz"] = "mixed"
        return VFile(name, mode, e, gz)
    if e is None:
        e = {}
        fs.store(path, e)
    e.update({"chunks": [], "gz": gz})
    return VFile(name, mode, e, gz)


class GzipModule:
    BadGzipFile = _gzip.BadGzipFile

    def open(self, path, mode="rb", *a, **k):
        if "t" not in mode and "b" not in mode:
            mode += "b"
        return vfs_open(path, mode.replace("t", ""), gz=True)

    def GzipFile(self, filename=None, mode="rb", compresslevel=9, fileobj=None, mtime=None):
        f = filename if fileobj is None else fileobj
        if isinstance(f, VFile):
            mode = mode or f.mode
            f.store["gz"] = True if "r" not in mode else f.store["gz"]
        return vfs_open(f, mode if "b" in mode else mode + "b", gz=True)

    def __getattr__(self, n): raise Unsupported("gzip.%s" % n)


# ------------------------------------------------------------------ uuid
class UUID:
    """128 bits as 32 nibbles (python int or z3 Int)."""
    def __init__(self, hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None, *, is_safe=None):
        if [hex, bytes, bytes_le, fields, int].count(None) != 4:
            raise TypeError("one of the hex, bytes, bytes_le, fields, or int arguments must be given")
        if hex is not None:
            if not is_str(hex):
                raise AttributeError("'%s' object has no attribute 'replace'" % tname(hex))
            if isinstance(hex, str):
                self.nib = [builtins.int(c, 16) for c in _uuid.UUID(hex).hex]
            else:
                h = as_sym(as_sym(as_sym(hex).replace("urn:", "")).replace("uuid:", ""))
                h = as_sym(as_sym(h.strip("{}")).replace("-", ""))
                cs = chars(h)
                if len(cs) != 32:
                    raise ValueError("badly formed hexadecimal UUID string")
                nib = []
                for c in cs:
                    if not core.ENG.decide(char_pred(c, "hex16", lambda x: chr(x) in "0123456789abcdefABCDEF")):
                        raise ValueError("invalid literal for int() with base 16")
                    nib.append(hex_value(c))
                self.nib = [n if isinstance(n, builtins.int) else z3.simplify(n) for n in nib]
        elif int is not None:
            if isinstance(int, SymInt):
                v = int.e
                E = core.ENG
                if E.decide(Or(v < 0, v >= 1 << 128)):
                    raise ValueError("int is out of range (need a 128-bit value)")
                ns = [E.fresh("nib") for _ in range(32)]
                for n in ns:
                    E.add(z3.And(n >= 0, n <= 15))
                E.add(v == z3.Sum([n * 16 ** (31 - i) for i, n in enumerate(ns)]))
                self.nib = ns
            else:
                self.nib = [builtins.int(c, 16) for c in _uuid.UUID(int=int).hex]
        elif bytes is not None:
            self.nib = [builtins.int(c, 16) for c in _uuid.UUID(bytes=bytes).hex]
        else:
            raise Unsupported("UUID from fields")
        if version is not None:
            self.nib[12] = version
            raise Unsupported("UUID version")

    @classmethod
    def of(cls, nib):
        u = object.__new__(UUID)
        u.nib = list(nib)
        return u

    def _text(self):
        out = []
        for i, n in enumerate(self.nib):
            if i in (8, 12, 16, 20):
                out.append(45)
            out.append(reg_hex(n))
        return mkstr(out)

    def __str__(self): return self._text()
    def __repr__(self): return concat(concat("UUID('", self._text()), "')")

    @property
    def hex(self): return mkstr([reg_hex(n) for n in self.nib])
    @property
    def urn(self): return concat("urn:uuid:", self._text())

    @property
    def int(self):
        v = sum(n * 16 ** (31 - i) for i, n in enumerate(self.nib))
        return mkint(v)

    @property
    def version(self):
        if core.ENG.decide(z3.And(z3.IntVal(8) <= self.nib[16], self.nib[16] <= 11)):
            return mkint(self.nib[12])

    @property
    def bytes(self): raise Unsupported("UUID.bytes")

    def __int__(self): return self.int

    def __eq__(self, o):
        if isinstance(o, UUID):
            return mkbool(And(*[(a == b) for a, b in zip(self.nib, o.nib)]))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.snot(r)

    def _lt(self, o, strict):
        if not isinstance(o, UUID):
            return NotImplemented
        r = not strict
        for a, b in reversed(list(zip(self.nib, o.nib))):
            if isinstance(a, builtins.int) and isinstance(b, builtins.int):
                r = True if a < b else (r if a == b else False)
            else:
                r = Or(a < b, And(a == b, r))
        return mkbool(r)

    def __lt__(self, o): return self._lt(o, True)
    def __le__(self, o): return self._lt(o, False)
    def __gt__(self, o): return o._lt(self, True) if isinstance(o, UUID) else NotImplemented
    def __ge__(self, o): return o._lt(self, False) if isinstance(o, UUID) else NotImplemented
    def __hash__(self): return HashVal(("uuid",) + tuple(mkint(n) for n in self.nib))
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def sx_in_model(self, m, eng):
        s = as_sym(self._text()).in_model(m)
        return {"uuid": s}


def reg_hex(n):
    return tabchar(n, HEXL)


class UuidModule:
    def __init__(self):
        self.UUID = UUID

    def uuid4(self):
        st = core.ENG.hooks.setdefault("uuid4", [0])
        st[0] += 1
        h = "%08x" % (0x5eed0000 + st[0]) + "cafe4000a000" + "%012x" % (st[0] * 7919)
        return UUID(hex=h)

    uuid1 = uuid4

    def __getattr__(self, n): raise Unsupported("uuid.%s" % n)


# ------------------------------------------------------------------ urllib
class SymURI:
    """urlparse() of a symbolic URI: identified by its text."""
    def __init__(self, text):
        self._t = text

    def geturl(self): return self._t

    def __eq__(self, o):
        if isinstance(o, SymURI):
            return self._t == o._t
        if hasattr(o, "geturl"):
            return self._t == o.geturl()
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.snot(r)

    def __hash__(self): return HashVal(("uri", self._t))
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("component of a symbolic URI")


class URI(SymURI):
    """Concrete URI: same interface, real components."""
    def __init__(self, text, real):
        SymURI.__init__(self, text)
        self._r = real

    def geturl(self): return self._r.geturl()
    def __getattr__(self, n):
        if n.startswith("__") or n in ("_r", "_t"):
            raise AttributeError(n)
        return getattr(self._r, n)
    def __iter__(self): return iter(self._r)
    def __getitem__(self, i): return self._r[i]
    def __len__(self): return len(self._r)

    def __eq__(self, o):
        if isinstance(o, URI):
            return self._r == o._r
        return SymURI.__eq__(self, o)

    def __hash__(self): return HashVal(("uri", self._r.geturl()))


class ParseModule:
    ParseResult, SplitResult = SymURI, SymURI

    def urlparse(self, url, *a, **k):
        if isinstance(url, SymStr):
            return SymURI(url)
        return URI(url, urllib.parse.urlparse(url, *a, **k))

    def urlsplit(self, url, *a, **k):
        if isinstance(url, SymStr):
            return SymURI(url)
        return URI(url, urllib.parse.urlsplit(url, *a, **k))

    def __getattr__(self, n):
        return getattr(urllib.parse, n)


class Response:
    """A stand-in for what a server answers: pieces of bytes, or an exception in place of a piece."""
    def __init__(self, pieces):
        self.pieces = list(pieces)

    def _next(self):
        p = self.pieces.pop(0)
        if isinstance(p, Exception):
            raise p
        return p

    def read(self, n=-1):
        if n is None or n < 0:
            out = []
            while self.pieces:
                out.append(self._next())
            if all(isinstance(p, bytes) for p in out):
                return b"".join(out)
            s = ""
            for p in out:
                s = concat(s, p.decode())
            return s.encode()
        while self.pieces:
            p = self.pieces[0]
            if isinstance(p, bytes) and len(p) > n:
                self.pieces[0] = p[n:]
                return p[:n]
            return self._next()
        return b""

    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


class RequestModule:
    def urlopen(self, url, *a, **k):
        served = core.ENG.hooks.get("served")
        if served is not None:
            if not (url == served[0]):
                raise urllib.error.URLError("no such page")
            if isinstance(served[1], Exception):
                raise served[1]
            return Response(served[1])
        raise urllib.error.URLError("no network")

    def urlretrieve(self, *a, **k):
        raise urllib.error.URLError("no network")

    def __getattr__(self, n): raise Unsupported("urllib.request.%s" % n)


# ------------------------------------------------------------------ os
class OsPath:
    def _e(self, p): return core.ENG.vfs.find(norm_path(p))
    def exists(self, p): return self._e(p) is not None
    lexists = exists

    def isfile(self, p):
        e = self._e(p)
        return e is not None and not e.get("dir")

    def isdir(self, p):
        e = self._e(p)
        return e is not None and bool(e.get("dir"))

    def getmtime(self, p):
        e = self._e(p)
        if e is None:
            raise FileNotFoundError(2, "No such file or directory", p)
        t = e.get("mtime")
        if t is None:
            raise Unsupported("time of a file that the scenario did not date")
        return core.SymRat(t.e, 10 ** 6) if isinstance(t, SymInt) else t / 10 ** 6

    def getsize(self, p): raise Unsupported("os.path.getsize")

    def join(self, a, *p):
        if not any(isinstance(x, SymStr) for x in (a,) + p):
            return _os.path.join(a, *p)
        for b in p:
            if b.startswith("/"):
                a = b
            elif not len(a) or a.endswith("/"):
                a = concat(a, b)
            else:
                a = concat(concat(a, "/"), b)
        return a

    def expanduser(self, p):
        if isinstance(p, str) and not p.startswith("~"):
            return p
        h = core.ENG.hooks.get("home")
        if p == "~" and h:
            return h
        raise Unsupported("os.path.expanduser without home")

    def splitext(self, p):
        if not isinstance(p, SymStr):
            return _os.path.splitext(p)
        cs = chars(p)
        D = core.ENG.decide
        i = len(cs) - 1
        while i >= 0 and not D(core.Or(*[cs[i] == 46, cs[i] == 47]) if not isinstance(cs[i], int) else cs[i] in (46, 47)):
            i -= 1
        if i < 0 or not (cs[i] == 46 if isinstance(cs[i], int) else D(cs[i] == 46)):
            return (p, "")
        j = i - 1
        while j >= 0 and (cs[j] == 46 if isinstance(cs[j], int) else D(cs[j] == 46)):
            j -= 1
        if j < 0 or (cs[j] == 47 if isinstance(cs[j], int) else D(cs[j] == 47)):
            return (p, "")
        return (mkstr(cs[:i]), mkstr(cs[i:]))

    def basename(self, p):
        if not isinstance(p, SymStr):
            return _os.path.basename(p)
        return p[p.rfind("/") + 1:]

    def __getattr__(self, n):
        f = getattr(_os.path, n)
        return f


class OsModule:
    def __init__(self):
        self.path = OsPath()
        self.sep, self.linesep, self.environ = "/", "\n", SDict()
        self.name = "posix"

    def getenv(self, k, d=None):
        h = core.ENG.hooks.get("home")
        if h and (k == "HOME" or k == "USERPROFILE" and core.ENG.hooks.get("profile", True)):
            return h
        return self.environ.get(k, d)

    def makedirs(self, p, mode=0o777, exist_ok=False):
        p = norm_path(p)
        fs = core.ENG.vfs
        e = fs.find(p)
        if e is not None:
            if exist_ok and e.get("dir"):
                return
            raise FileExistsError(17, "File exists", p)
        if isinstance(p, SymStr):
            raise Unsupported("symbolic folder")
        while p not in ("", "/") and fs.find(p) is None:
            fs.store(p, {"dir": True})
            p = _os.path.dirname(p)

    def mkdir(self, p, mode=0o777):
        if core.ENG.vfs.find(norm_path(p)) is not None:
            raise FileExistsError(17, "File exists", p)
        if core.ENG.vfs.find(_os.path.dirname(norm_path(p))) is None:
            raise FileNotFoundError(2, "No such file or directory", p)
        core.ENG.vfs.store(norm_path(p), {"dir": True})

    def listdir(self, p="."):
        p = norm_path(p)
        fs = core.ENG.vfs
        e = fs.find(p)
        if e is None:
            raise FileNotFoundError(2, "No such file or directory", p)
        if not e.get("dir"):
            raise NotADirectoryError(20, "Not a directory", p)
        r = [k[len(p) + 1:] for k in fs if k.startswith(p + "/") and "/" not in k[len(p) + 1:]]
        for k, _ in fs.sym:
            if k.startswith(p + "/"):
                r.append(k[len(p) + 1:])
        return r

    def fspath(self, p): return p

    def stat(self, p):
        return types.SimpleNamespace(st_mtime=self.path.getmtime(p))

    def remove(self, p):
        e = core.ENG.vfs.find(norm_path(p))
        if e is None:
            raise FileNotFoundError(2, "No such file or directory", p)
        if e.get("dir"):
            raise IsADirectoryError(21, "Is a directory", p)
        core.ENG.vfs.drop(norm_path(p))
    unlink = remove

    def rename(self, a, b):
        fs = core.ENG.vfs
        e = fs.find(norm_path(a))
        if e is None:
            raise FileNotFoundError(2, "No such file or directory", a)
        fs.drop(norm_path(a))
        fs.drop(norm_path(b))
        fs.store(norm_path(b), e)
    replace = rename
    def __getattr__(self, n): raise Unsupported("os.%s" % n)


# ------------------------------------------------------------------ collections / functools
def _lru(maxsize=128, typed=False):
    def deco(fn):
        memo = SDict()

        @functools.wraps(fn)
        def w(*a, **k):
            key = (a, tuple(sorted(k.items())))
            c = memo._a.find(key)
            if c is None:
                c = memo._a.put(key, fn(*a, **k))
            return c[1]
        w.cache_clear = memo.clear
        return w
    if callable(maxsize):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


def _cmp_to_key(f):
    class K:
        __slots__ = ("o",)
        def __init__(self, o): self.o = o
        def __lt__(self, x): return f(self.o, x.o) < 0
        def __gt__(self, x): return f(self.o, x.o) > 0
        def __eq__(self, x): return f(self.o, x.o) == 0
        def __le__(self, x): return f(self.o, x.o) <= 0
        def __ge__(self, x): return f(self.o, x.o) >= 0
        __hash__ = None
    return K


class _Proxy(types.ModuleType):
    def __init__(self, real, **over):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


def as_module(name, obj):
    """Stubs are plain objects; `from m import x` only needs getattr."""
    return obj


def _bisect(left):
    def f(a, x, lo=0, hi=None, *, key=None):
        hi = len(a) if hi is None else hi
        k = hooks.wrapf(key) or (lambda v: v)
        while lo < hi:
            mid = (lo + hi) // 2
            if (k(a[mid]) < x) if left else not (x < k(a[mid])):
                lo = mid + 1
            else:
                hi = mid
        return lo
    return f


def _insort(left):
    b = _bisect(left)
    def f(a, x, lo=0, hi=None, *, key=None):
        a.insert(b(a, x if key is None else hooks.wrapf(key)(x), lo, hi, key=key), x)
    return f


def stub_modules(world):
    et, dom, sax = ETModule(), MinidomModule(), SaxModule()
    dt, tm = DatetimeModule(), TimeModule()
    import bisect
    parse, request = ParseModule(), RequestModule()
    ns = types.SimpleNamespace
    urllib_ns = ns(parse=parse, request=request, error=urllib.error)
    etree = ns(ElementTree=et, cElementTree=et)
    domns = ns(minidom=dom)
    os_ = OsModule()
    return {
        "datetime": dt, "time": tm, "calendar": CalendarModule(),
        "uuid": UuidModule(), "gzip": GzipModule(), "re": ReModule(), "os": os_, "os.path": os_.path,
        "xml": ns(etree=etree, dom=domns, sax=sax), "xml.etree": etree, "xml.etree.ElementTree": et,
        "xml.dom": domns, "xml.dom.minidom": dom, "xml.sax": sax, "xml.sax.handler": sax.handler,
        "urllib": urllib_ns, "urllib.parse": parse, "urllib.request": request, "urllib.error": urllib.error,
        "collections": _Proxy(collections, OrderedDict=SOrderedDict, defaultdict=SDefaultDict, Counter=SCounter),
        "functools": _Proxy(functools, lru_cache=_lru, cache=_lru, cmp_to_key=_cmp_to_key),
        "bisect": _Proxy(bisect, bisect=_bisect(False), bisect_right=_bisect(False), bisect_left=_bisect(True),
                         insort=_insort(False), insort_right=_insort(False), insort_left=_insort(True)),
    }
