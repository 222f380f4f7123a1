"""C26: dispatch by suffix."""
from props.common import factory, put, cls, write_log
BOUNDS = {"quick": "all names of length 0 to 12 over printable ASCII; stems of length 0 to 2 and of 60 characters before every case variant of every suffix; files of all "
                   "suffixes in three case variants, with XES and MXML contents; attempts with files that cannot be read, of names that differ from a suffix in one character",
          "thorough": "all names of length 0 to 16"}
OUTSIDE = "names whose last eight characters are not ASCII (case mapping of letters such as long s depends on the library)"
ASSUMES = []
P = {"data_in.XesXmlParser": [".xes"], "data_in.XesXmlGZIPParser": [".xes.gz", ".xez"], "data_in.XMxmlParser": [".mxml", ".xml"],
     "data_in.XMxmlGZIPParser": [".mxml.gz"]}
ASCII = "".join(chr(c) for c in range(32, 127))


def lower(sx, c):
    return c.lower()


def ends(sx, name, suffix):
    """Ends with the suffix in any case; decided character by character."""
    if len(name) < len(suffix):
        return False
    t = name[len(name) - len(suffix):]
    return sx.both(*[sx.either(x == y, x == y.upper()) for x, y in zip(t, suffix)])


def verify(sx, name):
    some = []
    for p, sufs in P.items():
        exp = sx.either(*[ends(sx, name, s) for s in sufs])
        got = sx.C(p)().can_parse(name)
        sx.check(got == exp, "accepts exactly its suffixes: " + p)
        some.append(exp)
    sx.check(sx.C("data_in.XUniversalParser")().can_parse(name) == sx.either(*some), "the universal parser accepts what some parser accepts")


def anyname(sx, n):
    verify(sx, sx.str("name", [n], chars=ASCII))


def variants(sx, suffix, lens):
    stem = sx.str("stem", lens)
    t = ""
    for i, c in enumerate(suffix):
        t = t + (sx.str("c%d" % i, [1], chars=c + c.upper()) if c.isalpha() else c)
    verify(sx, stem + t)


def near(sx, suffix):
    """Long names ending like a suffix but for one character, or with something behind it."""
    stem = "the log of the year 2020, part 1 (checked) and some more text in the name"
    c = sx.str("c", [1], chars=ASCII)
    for i in range(len(suffix)):
        verify(sx, stem + suffix[:i] + c + suffix[i + 1:])
    verify(sx, stem + suffix + c)
    verify(sx, stem + c + suffix)


class File:
    """An open file that cannot be read, and records the attempts."""
    def __init__(self, name):
        self.name = name
        self.used = []

    def read(self, n=-1):
        self.used.append("read")
        raise OSError("cannot be read")

    def close(self):
        self.used.append("close")
        raise OSError("cannot be closed")


def attempts(sx, suffix, how):
    """The universal parser tries the file with a parser that accepts it, with no other."""
    c = sx.str("c", [1], chars=ASCII)
    names = [("a log" + suffix + c)] if how == "behind" else ["a log" + c + suffix] if how == "before" else \
        ["a log" + suffix[:i] + c + suffix[i + 1:] for i in range(len(suffix))]
    for name in names:
        f = File(name)
        sx.check(sx.raises(sx.C("data_in.XUniversalParser")().parse, f) is not None, "a file that cannot be read is refused")
        plain = sx.either(*[ends(sx, name, x) for p in P for x in P[p] if "GZIP" not in p])
        packed = sx.either(*[ends(sx, name, x) for p in P for x in P[p] if "GZIP" in p])
        sx.check(sx.either(plain, packed, not f.used), "a file that no parser accepts is not touched")
        sx.check(sx.either(sx.no(plain), "read" in f.used), "one that a parser accepts is read")


def declared(sx):
    stem = sx.str("stem", [1, 2])
    for s in ("XesXmlSerializer", "XesXmlGZIPSerializer", "XMxmlSerializer", "XMxmlGZIPSerializer"):
        z = sx.C("data_out." + s)()
        sx.check(len(z.get_suffices()) > 0, "a suffix is declared")
        for x in z.get_suffices():
            sx.check(sx.C("data_in.XUniversalParser")().can_parse(stem + "." + x), "a declared suffix is accepted: " + s)


def files(sx, suffix, case):
    """A file of each suffix is read by the universal parser."""
    f = factory(sx)
    log, t, e = f.create_log(), f.create_trace(), f.create_event()
    v = sx.str("v", [1, 2], chars="abcXYZ.")
    put(log, cls(sx, "literal")("concept:name", "the log"))
    put(t, cls(sx, "literal")("concept:name", "the case"))
    put(e, cls(sx, "literal")("concept:name", v))
    t.append(e)
    log.append(t)
    ser = {".xes": "XesXmlSerializer", ".xes.gz": "XesXmlGZIPSerializer", ".xez": "XesXmlGZIPSerializer", ".mxml": "XMxmlSerializer",
           ".xml": "XMxmlSerializer", ".mxml.gz": "XMxmlGZIPSerializer"}[suffix]
    name = "log" + {"lower": suffix, "upper": suffix.upper(), "mixed": suffix[:2].upper() + suffix[2:]}[case]
    path = write_log(sx, log, name, "data_out." + ser)
    with sx.open(path, "r") as file:
        logs = sx.C("data_in.XUniversalParser")().parse(file)
    sx.check(len(logs) == 1, "one log is read")
    sx.check(len(logs[0]) == 1 and len(logs[0][0]) == 1, "with its trace and event")
    sx.check(logs[0][0][0].get_attributes()["concept:name"].get_value() == v, "and the value of the event")


def refused(sx, name):
    """A name no parser accepts is refused."""
    p = sx.path(name)
    with sx.open(p, "w") as f:
        f.write("<log/>")
    U = sx.C("data_in.XUniversalParser")()
    sx.check(sx.no(U.can_parse(name)), "not accepted")
    with sx.open(p, "r") as file:
        sx.check(sx.raises(U.parse, file) is not None, "refused")


def scenarios(tier):
    q = tier == "quick"
    S = [".xes", ".xes.gz", ".xez", ".mxml", ".xml", ".mxml.gz"]
    r = [("name-%d" % n, lambda sx, n=n: anyname(sx, n)) for n in range(13 if q else 17)]
    r += [("variants-%s-%d" % (s, n), lambda sx, s=s, n=n: variants(sx, s, [n])) for s in S for n in (0, 1, 2, 60)]
    r += [("near" + s, lambda sx, s=s: near(sx, s)) for s in S]
    r += [("attempts%s-%s" % (s, h), lambda sx, s=s, h=h: attempts(sx, s, h)) for s in S for h in ("behind", "before", "inside")]
    r += [("declared", declared)]
    r += [("file%s-%s" % (s, c), lambda sx, s=s, c=c: files(sx, s, c)) for s in S for c in ("lower", "upper", "mixed")]
    r += [("refused-" + n, lambda sx, n=n: refused(sx, n)) for n in ("log", "log.txt", "xes", "log.xes.bak", "log.gz", "log.xesgz")]
    return r
