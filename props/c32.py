"""C32: compressed files."""
from props.common import factory, put, cls, attr, write_log, check_same, check_same_map, VALUE_KINDS, KINDS, large_log
BOUNDS = {"quick": "logs of up to 2 traces of up to 2 events with globals, classifiers and extensions; one value of each kind (texts of length 0 to 2 with any white "
                   "space, all integers, doubles, identifiers, instants at a fixed offset) on any level; writing in text and binary mode; all six suffixes; files written over existing ones, opened in six modes; a log of 130 traces (MXML: 30), 270 (60) events in one of them, 110 (30) attributes and 30 (12) levels",
          "thorough": "texts of length 0 to 4, arbitrary instants"}
OUTSIDE = "damaged or empty files, files with several compressed members"
ASSUMES = ["gzip returns the bytes that were written (gzip.open is replaced by a stand-in; checked on witnesses at every run with the real module)"]
FMT = {"xes": ("data_out.XesXmlSerializer", "data_out.XesXmlGZIPSerializer", "data_in.XesXmlParser", "data_in.XesXmlGZIPParser", "log.xes",
               ["log.xes.gz", "log.xez"]),
       "mxml": ("data_out.XMxmlSerializer", "data_out.XMxmlGZIPSerializer", "data_in.XMxmlParser", "data_in.XMxmlGZIPParser", "log.mxml",
                ["log.mxml.gz"])}


def parse(sx, parser, path):
    with sx.open(path, "r") as f:
        return list(sx.C(parser)().parse(f))


def same_logs(sx, xs, ys, what):
    sx.check(len(xs) == len(ys), what + ": number of logs")
    for a, b in zip(xs, ys):
        check_same_map(sx, a, b, what)
        sx.check(len(a) == len(b), what + ": number of traces")
        for t, u in zip(a, b):
            check_same_map(sx, t, u, what, " of a trace")
            sx.check(len(t) == len(u), what + ": number of events")
            for e, g in zip(t, u):
                check_same_map(sx, e, g, what, " of an event")
        for get in ("get_global_trace_attributes", "get_global_event_attributes"):
            p, q = getattr(a, get)(), getattr(b, get)()
            sx.check(len(p) == len(q), what + ": number of globals")
            for x, y in zip(p, q):
                check_same(sx, x, y, what, " of the globals")
        sx.check([(c.name(), list(c.get_defining_attribute_keys())) for c in a.get_classifiers()] ==
                 [(c.name(), list(c.get_defining_attribute_keys())) for c in b.get_classifiers()], what + ": classifiers")
        sx.check(sorted(x.get_prefix() for x in a.get_extensions()) == sorted(x.get_prefix() for x in b.get_extensions()), what + ": extensions")


def verify(sx, fmt, log, in_bytes=None):
    ser, gzser, par, gzpar, plain, packed = FMT[fmt]
    write_log(sx, log, plain, ser)
    ref = parse(sx, par, sx.path(plain))
    sx.check(len(ref) == 1 and len(ref[0]) == len(log), "the plain file is read")
    for name in packed:
        p = write_log(sx, log, name, gzser, in_bytes)
        same_logs(sx, ref, parse(sx, gzpar, p), "compressed file " + name)
        with sx.open(p, "r") as f:
            same_logs(sx, ref, list(sx.C("data_in.XUniversalParser")().parse(f)), "universal parser " + name)
        q = sx.path("un-" + plain)
        sx.gunzip(p, q)
        same_logs(sx, ref, parse(sx, par, q), "uncompressed again " + name)
        r = sx.path("re-" + name)
        sx.write_gz(sx.path(plain), r)
        same_logs(sx, ref, parse(sx, gzpar, r), "compressed by other means " + name)
    with sx.open(sx.path(plain), "r") as f:
        same_logs(sx, ref, list(sx.C("data_in.XUniversalParser")().parse(f)), "universal parser, plain")


def base(sx, fmt, ntr=1, nev=1):
    f = factory(sx)
    log = f.create_log()
    put(log, cls(sx, "literal")("concept:name", "the log"))
    for i in range(ntr):
        t = f.create_trace()
        put(t, cls(sx, "literal")("concept:name", "case %d" % i))
        for j in range(nev):
            e = f.create_event()
            put(e, cls(sx, "literal")("concept:name", "act %d" % j), cls(sx, "literal")("lifecycle:transition", "start"))
            t.append(e)
        log.append(t)
    return log


def values(sx, fmt, kind, level, lens, small):
    log = base(sx, fmt)
    el = {"log": log, "trace": log[0], "event": log[0][0]}[level]
    kw = {"n": lens, "ws": True} if kind == "literal" else {}
    if kind in ("timestamp",) and small:
        kw = {"small": True}
    if fmt == "mxml" and kind == "timestamp":
        kw = {"small": True}
    if fmt == "mxml" and kind in ("continuous",):
        a = cls(sx, kind)("k", sx.choice("v", [0.0, 1.5, -2.25e30, float("inf")]), None)
    elif kind in ("list", "container"):
        a = cls(sx, kind)("k")
        if fmt == "xes":
            a.add_to_collection(attr(sx, "v", "literal", "x"))
            a.add_to_collection(attr(sx, "w", "discrete", "x"))
    else:
        a = attr(sx, "v", kind, "k", **kw)
    put(el, a)
    put(el, cls(sx, "discrete")("z", 1))
    verify(sx, fmt, log)


def shape(sx, fmt, ntr, nev, in_bytes):
    log = base(sx, fmt, ntr, nev)
    v = sx.str("v", [1], chars="abcXYZ.<&")
    for t in log:
        for e in t:
            put(e, cls(sx, "literal")("k", v))
    if fmt == "xes":
        for x in ("XConceptExtension", "XTimeExtension"):
            log.get_extensions().add(sx.C("extension.std." + x)())
        log.get_global_trace_attributes().append(cls(sx, "literal")("concept:name", v))
        log.get_global_event_attributes().append(cls(sx, "discrete")("d", sx.int("d", -10 ** 6, 10 ** 6)))
        log.get_classifiers().append(sx.C("classification.XEventAttributeClassifier")("c", ["concept:name", v]))
    verify(sx, fmt, log, in_bytes)


def large(sx, fmt, in_bytes):
    size = {} if fmt == "xes" else {"traces": 30, "events": 60, "attrs": 30, "items": 40, "depth": 12}
    verify(sx, fmt, large_log(sx, chars="abcXYZ.<&", empty=fmt == "xes", **size), in_bytes)


def over(sx, fmt, name, mode):
    """The file existed before (with another log in it) and is opened without being emptied."""
    ser, gzser, par, gzpar, plain, packed = FMT[fmt]
    first, log = base(sx, fmt, 1, 2), base(sx, fmt, 1, 1)
    put(log[0][0], cls(sx, "literal")("k", sx.str("v", [1, 2])))
    write_log(sx, log, plain, ser)
    p = write_log(sx, first, name, gzser)
    with sx.open(p, mode) as f:
        sx.C(gzser)().serialize(log, f)
    same_logs(sx, parse(sx, par, sx.path(plain)), parse(sx, gzpar, p), "written over " + name)


def scenarios(tier):
    q = tier == "quick"
    L = [0, 1, 2] if q else [0, 1, 2, 3, 4]
    r = []
    for f in FMT:
        for k in KINDS:
            for lv in ("log", "trace", "event"):
                r.append(("%s-%s-%s" % (f, k, lv), lambda sx, f=f, k=k, lv=lv: values(sx, f, k, lv, L, q)))
        for a, b in ((1, 1), (1, 2), (2, 1), (2, 2), (0, 0)):
            for ib in (None, True, False):
                r.append(("%s-shape-%d-%d-%s" % (f, a, b, ib), lambda sx, f=f, a=a, b=b, ib=ib: shape(sx, f, a, b, ib)))
        for ib in (None, True):
            r.append(("%s-large-%s" % (f, ib), lambda sx, f=f, ib=ib: large(sx, f, ib)))
        for n in FMT[f][5]:
            for m in ("w", "wb", "r+", "r+b", "a", "ab"):
                r.append(("%s-over-%s-%s" % (f, n, m), lambda sx, f=f, n=n, m=m: over(sx, f, n, m)))
    return r
