"""Scenario interface.  A scenario is a function of `sx`; the same function runs symbolically
(SymSX, over the transformed source) and concretely (ConcreteSX, over the real package)."""
import datetime as _dt
import importlib
import os
import sys
import uuid as _uuid


class Stop(Exception):
    """Concrete run: an assumption does not hold for the given inputs."""


class CheckFailed(Exception):
    pass


def xml_tuple(e):
    return (e.tag, list(e.attrib.items()), e.text if e.text is not None else "", [xml_tuple(c) for c in e])


class Base:
    def C(self, dotted):
        """Class of the package under test: C('model.XEvent')."""
        return getattr(self.mod("opyenxes." + dotted), dotted.rsplit(".", 1)[1])

    def flag(self, name):
        return bool(self.bool(name))


# ------------------------------------------------------------------ symbolic
class SymSX(Base):
    symbolic = True
    any_text = False  # texts may contain characters that XML cannot carry

    def __init__(self, eng, world, tier, params):
        self.E, self.W, self.tier, self.p = eng, world, tier, params
        from symx import dt, stubs
        self.dtm, self.uuidm = world.stubs["datetime"], world.stubs["uuid"]
        self.names = set()

    def mod(self, name):
        return self.W.load(name)

    def _rec(self, name, kind, v):
        if name in self.names:
            raise RuntimeError("duplicate input " + name)
        self.names.add(name)
        self.E.inputs.append((name, kind, v))
        return v

    def int(self, name, lo=None, hi=None):
        import z3
        from symx.core import SymInt
        v = z3.Int(name)
        if lo is not None:
            self.E.add(v >= lo)
        if hi is not None:
            self.E.add(v <= hi)
        return self._rec(name, "int", SymInt(v))

    def bool(self, name):
        import z3
        from symx.core import SymBool
        return self._rec(name, "bool", SymBool(z3.Bool(name)))

    def float(self, name, finite=False, nan=True):
        import z3
        from symx.core import SymFloat
        v = z3.FP(name, z3.Float64())
        if finite:
            self.E.add(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))))
        elif not nan:
            self.E.add(z3.Not(z3.fpIsNaN(v)))
        return self._rec(name, "float", SymFloat(v))

    def str(self, name, lens, extra=True, ws=False, chars=None):
        from symx import sstr
        import z3
        dom = None
        if chars is not None:
            cps = sorted({ord(c) for c in chars})
            runs = []
            for c in cps:
                if runs and runs[-1][1] == c - 1:
                    runs[-1][1] = c
                else:
                    runs.append([c, c])
            def dom(c):
                t = [(c == a) if a == b else z3.And(c >= a, c <= b) for a, b in runs]
                return z3.Or(*t) if len(t) > 1 else t[0]
        elif self.any_text:
            def dom(c):
                return z3.Or(sstr.in_alphabet(c, True, True), *[c == x for x in sstr.WIDE])
        return self._rec(name, "str", sstr.fresh_str(name, lens, extra, ws, dom))

    def choice(self, name, options):
        import z3
        from symx.core import SymInt
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = z3.Int(name)
        self.E.add(z3.And(v >= 0, v < len(options)))
        self._rec(name, "int", SymInt(v))
        return options[self.E.pick(v, range(len(options)))]

    def datetime(self, name, aware=True, ymin=1, ymax=9999, ms_only=False, off=(-840, 840), off_fixed=None,
                 sec_off=False, fields=False, narrow=False):
        """narrow: month 1-9, day 10-28, hour 0-19 (fewer case distinctions when the text is read back)."""
        import z3
        from symx import dt
        from symx.core import SymInt
        import datetime as _d
        D, h, mi, s, us = [z3.Int("%s.%s" % (name, f)) for f in ("day", "h", "mi", "s", "us")]
        A = self.E.add
        A(z3.And(D >= _d.date(ymin, 1, 1).toordinal(), D <= _d.date(ymax, 12, 31).toordinal(),
                 h >= 0, h <= 23, mi >= 0, mi <= 59, s >= 0, s <= 59))
        if ms_only:
            ms = z3.Int(name + ".ms")
            A(z3.And(ms >= 0, ms <= 999, us == ms * 1000))
        else:
            A(z3.And(us >= 0, us <= 999999))
        tz = None
        if aware:
            if off_fixed is not None:
                tz = dt.timezone(dt.timedelta(minutes=off_fixed))
            else:
                o = z3.Int(name + ".off")
                A(z3.And(o >= off[0], o <= off[1]))
                tz = dt.timezone(dt.timedelta(minutes=SymInt(o)) if not sec_off else dt.timedelta(seconds=SymInt(o)))
        if fields:
            y, mo, d = [z3.Int("%s.%s" % (name, f)) for f in ("y", "mo", "d")]
            if narrow:
                A(z3.And(y >= ymin, y <= ymax, mo >= 1, mo <= 9, d >= 10, d <= 28, h <= 19))
            else:
                A(z3.And(y >= ymin, y <= ymax, mo >= 1, mo <= 12, d >= 1, d <= dt.month_len(y, mo)))
            return self._rec(name, "datetime", dt.datetime._mk((y, mo, d, h, mi, s, us), tz))
        return self._rec(name, "datetime", dt.datetime._mk((None, None, None, h, mi, s, us), tz, day=D))

    def mk_datetime(self, *f, tz=None):
        from symx import dt
        return dt.datetime(*f, tzinfo=tz)

    def mk_zone(self, minutes, name=None):
        from symx import dt
        return dt.timezone(dt.timedelta(minutes=minutes), name) if name else dt.timezone(dt.timedelta(minutes=minutes))

    def delta_us(self, a, b):
        """a - b in microseconds."""
        from symx.core import mkint
        return mkint((a - b).us)

    def uuid(self, name, other=False):
        """An arbitrary UUID; other: different from every UUID that uuid4() gives during the run."""
        import z3
        from symx.stubs import UUID
        ns = [z3.Int("%s.%d" % (name, i)) for i in range(32)]
        if other:
            self.E.add(ns[0] != 5)
        for n in ns:
            self.E.add(z3.And(n >= 0, n <= 15))
        return self._rec(name, "uuid", UUID.of(ns))

    def uri(self, name, n=1):
        """A syntactically normal absolute URI with an arbitrary path of n letters."""
        s = self.str(name, [n], chars="abcdefghijklmnopqrstuvwxyz")
        return self.W.stubs["urllib.parse"].urlparse("http://ext.example/" + s)

    def parse_uri(self, text):
        return self.W.stubs["urllib.parse"].urlparse(text)

    def local_offset(self, minutes):
        self.E.hooks["local_us"] = minutes * 60 * 1000000

    def clock_range(self, lo_us=10 ** 15, hi_us=3 * 10 ** 15):
        """From now on the clock gives arbitrary non-decreasing readings in the range (otherwise it stands still)."""
        self.E.hooks["clock_min"], self.E.hooks["clock_max"] = lo_us, hi_us

    def clock_values(self):
        """All clock readings so far, in microseconds."""
        return [v for n, k, v in self.E.inputs if k == "clock"]

    def assume(self, c):
        from symx.core import Sym, SymBool, Infeasible
        if isinstance(c, Sym) and not isinstance(c, SymBool):
            c = bool(c)
        self.E.assume(c if isinstance(c, SymBool) else bool(c))

    def check(self, c, msg):
        self.E.check(c, msg)

    def fail(self, msg):
        self.E.check(False, msg)

    def observe(self, name, v):
        self.E.observations.append((name, v))

    def raises(self, fn, *a):
        """The exception raised by fn(*a), or None."""
        try:
            fn(*a)
        except Exception as e:
            return e
        return None

    def both(self, *cs):
        from symx.core import sand
        return sand(*cs)

    def either(self, *cs):
        from symx.core import sor
        return sor(*cs)

    def no(self, c):
        from symx.core import snot
        return snot(c)

    def same_float(self, a, b):
        from symx.core import SymFloat
        from symx import core
        if isinstance(a, SymFloat):
            return a.same(b)
        if isinstance(b, SymFloat):
            return b.same(a)
        return a == b or (a != a and b != b)

    def hash_eq(self, a, b):
        from symx.containers import sx_hash, COLLIDE
        COLLIDE[0] = False         # collisions may only help an equality of hashes
        try:
            return sx_hash(a) == sx_hash(b)
        finally:
            COLLIDE[0] = True

    def isnan(self, x):
        return x != x

    # -- files
    def path(self, name):
        return "/vfs/" + name

    def open(self, path, mode="r"):
        from symx.stubs import vfs_open
        return vfs_open(path, mode)

    def write_xml(self, path, tree, pretty=True):
        """Write a document: tree = (tag, {attr: value}, [children], text or None)."""
        from symx.xmlstub import Node, XmlText, DomNode
        def node(t):
            tag, attrs, kids, text = (tuple(t) + ({}, (), None)[len(t) - 1:])[:4]
            n = DomNode("el", tag)
            n.attrs = list(attrs.items())
            if text is not None:
                n.appendChild(DomNode("text", data=text))
            for k in kids:
                n.appendChild(node(k))
            return n
        d = DomNode("doc")
        d.appendChild(node(tree))
        from symx.stubs import vfs_open
        f = vfs_open(path, "w")
        root = d._token("\t" if pretty else "", "\n" if pretty else "").root
        root.escaped_text = True
        f.write(XmlText(root, False))
        f.close()

    def read_xml(self, path):
        """A document as another tool reads it: (tag, [(name, value)], text, [children])."""
        from symx.xmlstub import ETModule
        from symx.stubs import vfs_open
        return xml_tuple(ETModule().parse(vfs_open(path, "r")).getroot())

    def write_gz(self, src, dst):
        """Compress an existing file."""
        fs = self.E.vfs
        fs[dst] = {"chunks": list(fs[src]["chunks"]), "gz": True}

    def home(self, profile=True):
        """Sets the home folder of the user to a scratch folder, also as USERPROFILE unless profile is False."""
        self.E.hooks["home"] = "/vfs/home"
        self.E.hooks["profile"] = profile
        self.E.vfs.store("/vfs/home", {"dir": True})
        return "/vfs/home"

    def platform(self, value):
        """What sys.platform is, for modules loaded from now on."""
        class Sys:
            platform = value

            def __getattr__(self, n):
                return getattr(sys, n)
        self.W.stubs["sys"] = Sys()

    def printed(self):
        """The arguments of each call of print so far, as texts."""
        return [list(x) for x in self.E.hooks.get("printed", [])]

    def write_text(self, path, text):
        from symx.stubs import vfs_open
        f = vfs_open(path, "w")
        f.write(text)
        f.close()

    def set_mtime(self, path, us):
        """Dates an existing file: microseconds since 1970."""
        self.E.vfs.find(path)["mtime"] = us

    def mkdir(self, path):
        self.E.vfs.store(path, {"dir": True})

    def exists(self, path):
        return self.E.vfs.find(path) is not None

    def files_below(self, path):
        """Relative paths of all files and folders below a folder."""
        r = [k[len(path) + 1:] for k in self.E.vfs if k.startswith(path + "/")]
        return sorted(r) + [k[len(path) + 1:] for k, _ in self.E.vfs.sym if k.startswith(path + "/")]

    def content(self, path):
        """Content of a text file written by the code."""
        out = ""
        for c in self.E.vfs.find(path)["chunks"]:
            out = out + (c.decode() if not isinstance(c, str) and hasattr(c, "decode") else c)
        return out

    def serve(self, url, pieces):
        """The network answers to this URL with pieces of text (or an exception), to nothing else."""
        self.E.hooks["served"] = (url, pieces if isinstance(pieces, Exception) else
                                  [p if isinstance(p, Exception) else p.encode() for p in pieces])

    def gunzip(self, src, dst):
        """Uncompress an existing file."""
        fs = self.E.vfs
        if not fs[src].get("gz"):
            raise OSError("Not a gzipped file")
        fs[dst] = {"chunks": list(fs[src]["chunks"]), "gz": False}


# ------------------------------------------------------------------ concrete
def norm(v):
    """Observation value in comparable JSON form."""
    if isinstance(v, bool) or v is None or isinstance(v, (str, int)):
        return v
    if isinstance(v, float):
        return {"float": v.hex() if v == v and abs(v) != float("inf") else repr(v)}
    if isinstance(v, _dt.datetime):
        o = v.utcoffset()
        return {"dt": [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond],
                "off": None if o is None else (o.days * 86400 + o.seconds) * 10 ** 6 + o.microseconds}
    if isinstance(v, _dt.timedelta):
        return {"td": (v.days * 86400 + v.seconds) * 10 ** 6 + v.microseconds}
    if isinstance(v, _uuid.UUID):
        return {"uuid": str(v)}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return [[norm(k), norm(x)] for k, x in v.items()]
    return {"repr": type(v).__name__}


class ConcreteSX(Base):
    symbolic = False

    def __init__(self, inputs, tier, params, scratch):
        self.inputs, self.tier, self.p, self.scratch = inputs, tier, params, scratch
        self.observed = []
        self.failures = []
        self.checks = 0
        self.clk = [v for k, v in sorted(((int(k.split("#")[1]), v) for k, v in inputs.items()
                                          if k.startswith("clock#")))]
        self.clk_used = []
        self.prints = []
        self.clk_lo = 10 ** 15

    def mod(self, name):
        return importlib.import_module(name)

    def int(self, name, lo=None, hi=None):
        v = self.inputs.get(name)
        return v if v is not None else (lo if lo is not None else 0)

    def bool(self, name): return self.inputs.get(name, False)

    def float(self, name, finite=False, nan=True):
        v = self.inputs.get(name)
        if v is None:
            return 0.0
        v = v["float"]
        return float(v) if v in ("nan", "inf", "-inf") else float.fromhex(v)

    def str(self, name, lens, extra=True, ws=False, chars=None):
        v = self.inputs.get(name)
        return v if v is not None else (chars[0] if chars else "a") * min(lens)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.inputs.get(name, 0)]

    def datetime(self, name, aware=True, ymin=1, ymax=9999, ms_only=False, off=(-840, 840), off_fixed=None,
                 sec_off=False, fields=False, narrow=False):
        v = self.inputs.get(name)
        if v is None:
            v = {"dt": [2000, 1, 1, 0, 0, 0, 0], "off": 0 if aware else None}
        tz = None if v["off"] is None else _dt.timezone(_dt.timedelta(microseconds=v["off"]))
        return _dt.datetime(*v["dt"], tzinfo=tz)

    def mk_datetime(self, *f, tz=None): return _dt.datetime(*f, tzinfo=tz)

    def mk_zone(self, minutes, name=None):
        return _dt.timezone(_dt.timedelta(minutes=minutes), name) if name else _dt.timezone(_dt.timedelta(minutes=minutes))

    def delta_us(self, a, b):
        d = a - b
        return (d.days * 86400 + d.seconds) * 10 ** 6 + d.microseconds

    def uuid(self, name, other=False):
        v = self.inputs.get(name)
        return _uuid.UUID(v["uuid"] if v else "0" * 31 + "1")

    def uri(self, name, n=1):
        from urllib.parse import urlparse
        return urlparse("http://ext.example/" + self.str(name, [n], chars="a"))

    def parse_uri(self, text):
        from urllib.parse import urlparse
        return urlparse(text)

    def local_offset(self, minutes):
        import time
        m = -minutes
        os.environ["TZ"] = "LCL%s%02d:%02d" % ("-" if m < 0 else "+", abs(m) // 60, abs(m) % 60)
        time.tzset()

    def clock_range(self, lo_us=10 ** 15, hi_us=3 * 10 ** 15): self.clk_lo = lo_us

    def clock_next(self):
        if self.clk:
            v = self.clk.pop(0)
        else:
            v = self.clk_used[-1] if self.clk_used else self.clk_lo
        self.clk_used.append(v)
        return v

    def clock_values(self): return list(self.clk_used)

    def assume(self, c):
        if not c:
            raise Stop()

    def check(self, c, msg):
        self.checks += 1
        if not c:
            raise CheckFailed(msg)

    def fail(self, msg):
        raise CheckFailed(msg)

    def observe(self, name, v):
        self.observed.append([name, norm(v)])

    def raises(self, fn, *a):
        try:
            fn(*a)
        except Exception as e:
            return e
        return None

    def both(self, *cs): return all(cs)
    def either(self, *cs): return any(cs)
    def no(self, c): return not c
    def same_float(self, a, b):
        import struct
        return (a != a and b != b) or struct.pack(">d", a) == struct.pack(">d", b)

    def hash_eq(self, a, b): return hash(a) == hash(b)
    def isnan(self, x): return x != x

    def path(self, name): return os.path.join(self.scratch, name)

    def open(self, path, mode="r"):
        return open(path, mode) if "b" in mode else open(path, mode, encoding="utf-8", newline="")

    def write_xml(self, path, tree, pretty=True):
        from xml.sax.saxutils import escape
        def attr(s):
            return (escape(s, {'"': "&quot;", "\n": "&#10;", "\r": "&#13;", "\t": "&#9;"}))
        def text(s):
            return escape(s, {"\r": "&#13;"})
        nl = "\n" if pretty else ""
        def node(t, ind):
            tag, attrs, kids, tx = (tuple(t) + ({}, (), None)[len(t) - 1:])[:4]
            head = ind + "<" + tag + "".join(' %s="%s"' % (k, attr(v)) for k, v in attrs.items())
            if tx is None and not kids:
                return head + "/>" + nl
            if tx is not None and not kids:
                return head + ">" + text(tx) + "</" + tag + ">" + nl
            sub = ind + ("\t" if pretty else "")
            body = (sub + text(tx) + nl) if tx is not None else ""
            return head + ">" + nl + body + "".join(node(k, sub) for k in kids) + ind + "</" + tag + ">" + nl
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write('<?xml version="1.0" encoding="UTF-8" ?>\n' + node(tree, ""))

    def read_xml(self, path):
        import xml.etree.ElementTree as ET
        return xml_tuple(ET.parse(path).getroot())

    def write_gz(self, src, dst):
        import gzip
        with open(src, "rb") as f, gzip.open(dst, "wb") as g:
            g.write(f.read())

    def gunzip(self, src, dst):
        import gzip
        with gzip.open(src, "rb") as f, open(dst, "wb") as g:
            g.write(f.read())

    def home(self, profile=True):
        h = os.path.join(self.scratch, "home")
        os.makedirs(h)
        os.environ["USERPROFILE"] = os.environ["HOME"] = h
        if not profile:
            del os.environ["USERPROFILE"]
        return h

    def platform(self, value):
        sys.platform = value  # of this process, which only runs this scenario

    def printed(self):
        return [list(x) for x in self.prints]

    def write_text(self, path, text):
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)

    def set_mtime(self, path, us): os.utime(path, ns=(us * 1000, us * 1000))
    def mkdir(self, path): os.mkdir(path)
    def exists(self, path): return os.path.exists(path)

    def files_below(self, path):
        r = []
        for d, ds, fs in os.walk(path):
            r += [os.path.relpath(os.path.join(d, x), path) for x in ds + fs]
        return sorted(r)

    def content(self, path):
        with open(path, encoding="utf-8", newline="") as f:
            return f.read()

    def serve(self, url, pieces):
        import urllib.request
        import urllib.error
        from symx.stubs_net import Response

        def urlopen(u, *a, **k):
            if u != url:
                raise urllib.error.URLError("no such page")
            if isinstance(pieces, Exception):
                raise pieces
            return Response([p if isinstance(p, Exception) else p.encode() for p in pieces])
        urllib.request.urlopen = urlopen
