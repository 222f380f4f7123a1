"""C43: writing does not change the log and always writes the same document."""
from props.common import (KINDS, COLLECTIONS, attr, cls, put, factory, snap, snap_map, check_snap, check_snap_map, large_log, fixed_attr, fixed_value)
BOUNDS = {"quick": "logs of up to 2 traces of up to 2 events with attributes of every kind (texts of length 0 to 2, all integers, doubles, identifiers, instants), "
                   "nested twice and in collections, on any level, with globals, classifiers, extensions and features; both formats, plain and compressed, text and "
                   "bytes; one serializer used for up to 3 writings of 2 logs; a log of 130 traces, 270 events in one of them, 110 attributes and 30 levels",
          "thorough": "as quick with 3 traces of up to 3 events"}
OUTSIDE = "doubles inside collections; the characters of the files (the XML libraries are modelled at the level of the infoset)"
ASSUMES = ["ElementTree, minidom and expat behave as modelled in symx/xmlstub.py (checked on witnesses at every run)"]
SER = {"xes": "data_out.XesXmlSerializer", "xesgz": "data_out.XesXmlGZIPSerializer", "mxml": "data_out.XMxmlSerializer",
       "mxmlgz": "data_out.XMxmlGZIPSerializer"}


def header(log):
    return ([(c, c.name(), list(c.get_defining_attribute_keys())) for c in log.get_classifiers()],
            sorted(x.get_prefix() for x in log.get_extensions()), dict(log.get_features()))


def snap_log(log):
    return (snap_map(log), [(t, snap_map(t), [(e, e.get_id().get_uuid(), snap_map(e)) for e in t]) for t in log],
            [snap(a) for a in log.get_global_trace_attributes()], [snap(a) for a in log.get_global_event_attributes()], header(log))


def check_log(sx, s, log, what):
    m, ts, gt, ge, hd = s
    check_snap_map(sx, m, log, what)
    sx.check(len(log) == len(ts), what + ": traces")
    for (t, tm, es), u in zip(ts, log):
        sx.check(t is u, what + ": the same traces")
        check_snap_map(sx, tm, u, what + " trace")
        sx.check(len(u) == len(es), what + ": events")
        for (e, i, em), g in zip(es, u):
            sx.check(e is g, what + ": the same events")
            sx.check(g.get_id().get_uuid() == i, what + ": identity")
            check_snap_map(sx, em, g, what + " event")
    for x, y in ((gt, log.get_global_trace_attributes()), (ge, log.get_global_event_attributes())):
        sx.check(len(x) == len(y), what + ": globals")
        for p, q in zip(x, y):
            check_snap(sx, p, q, what + " global")
    h = header(log)
    sx.check(len(h[0]) == len(hd[0]), what + ": classifiers")
    for (c, n, ks), (d, l, js) in zip(hd[0], h[0]):
        sx.check(c is d, what + ": the same classifiers")
        sx.check(n == l, what + ": names of classifiers")
        sx.check(len(ks) == len(js), what + ": keys of classifiers")
        for x, y in zip(ks, js):
            sx.check(x == y, what + ": keys of classifiers")
    sx.check(h[1] == hd[1], what + ": extensions")
    sx.check(h[2] == hd[2], what + ": features")


def same_xml(sx, a, b, what):
    sx.check(a[0] == b[0], what + ": element")
    sx.check(len(a[1]) == len(b[1]), what + ": number of attributes of an element")
    for (k, v), (l, w) in zip(a[1], b[1]):
        sx.check(k == l, what + ": attribute of an element")
        sx.check(v == w, what + ": value of an attribute of an element")
    sx.check(a[2] == b[2], what + ": text")
    sx.check(len(a[3]) == len(b[3]), what + ": number of elements")
    for x, y in zip(a[3], b[3]):
        same_xml(sx, x, y, what)


def write(sx, ser, log, name, mode):
    gz = type(ser).__name__.find("GZIP") >= 0
    p = sx.path(name)
    if mode == "bytes" and not gz:
        with sx.open(p, "wb") as f:
            ser.serialize(log, f, True)
    else:
        with sx.open(p, "w") as f:
            ser.serialize(log, f)
    if gz:
        sx.gunzip(p, sx.path("u-" + name))
        p = sx.path("u-" + name)
    return sx.read_xml(p)


def fill(sx, el, name, kind, depth=2, small=False):
    a = attr(sx, name, kind, "k" + name, small=small)
    x = a
    for d in range(depth):
        k = KINDS[(KINDS.index(kind) + 3 + d) % 8]
        if k == "continuous" and kind in COLLECTIONS:
            k = "boolean"  # the text of a collection joins the texts of its elements, which a double has none of here
        y = attr(sx, "%s.%d" % (name, d), k, "n%d" % d, small=True)
        if type(x).__name__ in ("XAttributeList", "XAttributeContainer"):
            x.add_to_collection(y)
            x.add_to_collection(attr(sx, "%s.s%d" % (name, d), "discrete", "n%d" % d, small=True))
        else:
            put(x, y)
            put(x, attr(sx, "%s.m%d" % (name, d), "literal", "semantic:modelReference", small=True))
        x = y
    put(el, a)


def base(sx, name, kind, ntr, nev, level, small=False):
    f = factory(sx)
    log = f.create_log()
    for i in range(ntr):
        t = f.create_trace()
        log.append(t)
        put(t, attr(sx, "%st%d" % (name, i), "literal", "concept:name", small=True))
        for j in range(nev):
            e = f.create_event()
            t.append(e)
            if (i + j) % 2 == 0 or j == 0:
                put(e, attr(sx, "%se%d%d" % (name, i, j), "literal", ["lifecycle:transition", "org:role"][(i + j) % 2], small=True))
                if small:
                    put(e, cls(sx, "timestamp")("time:timestamp", fixed_value(sx, "timestamp", 2 * i + j)))
                else:
                    put(e, attr(sx, "%sd%d%d" % (name, i, j), "timestamp", "time:timestamp", small=True))
    fill(sx, [log, log[0], log[0][0]][level], name + "v", kind, small=small)
    for i, g in enumerate((log.get_global_trace_attributes(), log.get_global_event_attributes())):
        g.append(attr(sx, "%sg%d" % (name, i), KINDS[(KINDS.index(kind) + i) % 8], "g", small=True))
    C = sx.C("classification.XEventAttributeClassifier")
    log.get_classifiers().append(C(sx.str(name + "cn", [1]), ["b", sx.str(name + "ck", [1]), "a", "b"]))
    for x in ("XConceptExtension", "XTimeExtension"):
        log.get_extensions().add(sx.C("extension.std." + x)())
    log.set_features("f", "v")
    return log


def twice(sx, ser, kind, ntr, nev):
    if len(ser) > 4:
        level = KINDS.index(kind) % 3
    elif ser == "mxml" and ntr == 2:
        level = (KINDS.index(kind) + sx.choice("level", [1, 2])) % 3
    else:
        level = sx.choice("level", [0, 1, 2])
    log = base(sx, "a", kind, ntr, nev, level)
    keep = snap_log(log)
    s = sx.C(SER[ser])()
    one = write(sx, s, log, "one", "text")
    check_log(sx, keep, log, "log after writing")
    two = write(sx, s, log, "two", "bytes")
    check_log(sx, keep, log, "log after writing twice")
    same_xml(sx, one, two, "document written again")
    three = write(sx, sx.C(SER[ser])(), log, "three", "text")
    same_xml(sx, one, three, "document written by another serializer")
    if len(ser) > 4:
        same_xml(sx, one, write(sx, sx.C(SER[ser[:-2]])(), log, "four", "text"), "compressed and plain document")


def large(sx, ser):
    log = large_log(sx, chars="abcXYZ.<&" if ser.startswith("mxml") else None)
    for i in range(12):
        log.get_global_trace_attributes().append(attr(sx, "gt%d" % i, KINDS[i % 8], "g%d" % (i % 7), small=True) if i > 10 else
                                                 fixed_attr(sx, KINDS[i % 8], "g%d" % (i % 7), i))
    keep = snap_log(log)
    s = sx.C(SER[ser])()
    one = write(sx, s, log, "one", "text")
    check_log(sx, keep, log, "log after writing")
    same_xml(sx, one, write(sx, s, log, "two", "bytes"), "document written again")
    check_log(sx, keep, log, "log after writing twice")


def history(sx, ser, kind):
    """A log written after another one is written as if it were the first."""
    a = base(sx, "a", kind, 1, 2, 0)
    b = base(sx, "b", KINDS[(KINDS.index(kind) + 1) % 8], 2, 1, 2)
    ref = write(sx, sx.C(SER[ser])(), b, "ref", "text")
    keep = snap_log(a), snap_log(b)
    s = sx.C(SER[ser])()
    first = write(sx, s, a, "a", "text")
    if sx.choice("empty", [0, 1]):
        write(sx, s, factory(sx).create_log(), "e", "text")
    same_xml(sx, ref, write(sx, s, b, "b", "text"), "document written after another")
    same_xml(sx, first, write(sx, s, a, "a2", "text"), "document written once more")
    check_log(sx, keep[0], a, "first log")
    check_log(sx, keep[1], b, "second log")


def scenarios(tier):
    q = tier == "quick"
    n = (2, 2) if q else (3, 3)
    r = [("large-" + s, lambda sx, s=s: large(sx, s)) for s in SER]
    for i, k in enumerate(KINDS):
        for s in SER:
            r.append(("twice-%s-%s" % (s, k), lambda sx, s=s, k=k: twice(sx, s, k, *n)))
        s = sorted(SER)[i % 4]
        r.append(("history-%s-%s" % (s, k), lambda sx, s=s, k=k: history(sx, s, k)))
    return r
