"""C56: copies of a log are written and summarised like the log."""
from props.common import KINDS, cls, put, factory, large_log
from props.c43 import base, write, same_xml, SER, snap_log, check_log
from props.c48 import same_classes, same_bounds, same_info, when
BOUNDS = {"quick": "logs of 2 traces of 1 event with attributes of every kind (texts of length 0 to 2, all integers, doubles, identifiers, instants), "
                   "nested twice and in collections, on any level, with globals, classifiers and extensions; copies of copies; both formats, plain and compressed; 9 "
                   "kinds of changes of either log; a log of 130 traces, 270 events in one of them, 110 attributes and 30 levels",
          "thorough": "as quick with 3 traces of 2 events"}
OUTSIDE = "doubles inside collections; the characters of the files (the XML libraries are modelled at the level of the infoset); the order of the extension elements"
ASSUMES = ["ElementTree, minidom and expat behave as modelled in symx/xmlstub.py (checked on witnesses at every run)"]
CHANGES = ["value", "nested", "inner", "event", "trace", "event attribute", "globals", "header", "order"]


def doc(sx, log, ser, name):
    x = write(sx, sx.C(SER[ser])(), log, name, "text")
    x[3].sort(key=lambda n: (0, dict(n[1])["prefix"]) if n[0] == "extension" else (1, ""))
    return x


def info(sx, a, b):
    X = sx.C("info.XLogInfo")
    i, j = X.create(a), X.create(b)
    sx.check(i.get_number_of_traces() == j.get_number_of_traces() and i.get_number_of_event() == j.get_number_of_event(), "numbers of traces and events")
    for n in ("event", "name", "resource", "transition"):
        same_classes(sx, getattr(i, "get_%s_classes" % n)(), getattr(j, "get_%s_classes" % n)(), n + " classes")
    same_bounds(sx, i.get_log_time_boundaries(), j.get_log_time_boundaries(), "bounds of the log")
    for t, u in zip(a, b):
        same_bounds(sx, i.get_trace_time_boundaries(t), j.get_trace_time_boundaries(u), "bounds of a trace")
    for n in ("log", "trace", "event", "meta"):
        same_info(sx, getattr(i, "get_%s_attribute_info" % n)(), getattr(j, "get_%s_attribute_info" % n)(), n + " attributes")


def change(sx, log, where, what):
    el = [log, log[0], log[0][0]][where]
    a = [x for k, x in el.get_attributes().items() if k.startswith("k")][0]
    t = type(a).__name__
    box = t in ("XAttributeList", "XAttributeContainer")
    if what == "value" and not box:
        a.set_value({"XAttributeLiteral": "changed", "XAttributeDiscrete": 7, "XAttributeContinuous": 0.25, "XAttributeBoolean": True,
                     "XAttributeID": sx.C("id.XID")(), "XAttributeTimestamp": sx.mk_datetime(1999, 1, 2, 3, 4, 5, tz=sx.mk_zone(60))}[t])
    elif what == "nested" or what == "value":
        if box:
            a.add_to_collection(cls(sx, "discrete")("new", 7))
        put(a, cls(sx, "literal")("new", "x"))
    elif what == "inner":
        x = ((list(a.get_collection()) if box else []) + list(a.get_attributes().values()))[0]
        x.get_attributes().clear()
        put(x, cls(sx, "literal")("new", "x"))
    elif what == "event":
        log[-1].append(factory(sx).create_event())
        put(log[-1][-1], cls(sx, "literal")("concept:name", "new"))
    elif what == "trace":
        del log[0]
    elif what == "event attribute":
        put(log[0][0], cls(sx, "literal")("concept:name", "new"))
        log[0][0].get_attributes().pop("time:timestamp", None)
    elif what == "globals":
        log.get_global_trace_attributes()[0].get_attributes().clear()
        put(log.get_global_trace_attributes()[0], cls(sx, "literal")("new", "x"))
        log.get_global_event_attributes().append(cls(sx, "literal")("new", "x"))
    elif what == "header":
        for k in log.get_classifiers():
            k.set_name("renamed")
            k.get_defining_attribute_keys().append("more")
        log.get_classifiers().append(sx.C("classification.XEventAttributeClassifier")("new", ["new"]))
        log.get_extensions().add(sx.C("extension.std.XCostExtension")())
        log.set_features("f", "w")
    else:
        log.reverse()
        log[0].append(log[-1].pop(0))


def copies(sx, ser, kind, ntr, nev, level, changes):
    log = base(sx, "a", kind, ntr, nev, level)
    one = doc(sx, log, ser, "one")
    c = log.clone()
    same_xml(sx, one, doc(sx, c, ser, "two"), "document of the copy")
    if KINDS.index(kind) % 2:
        same_xml(sx, one, doc(sx, c.clone(), ser, "three"), "document of a copy of the copy")
    a, b = (log, c) if sx.choice("which", [0, 1]) else (c, log)
    keep = snap_log(b)
    change(sx, a, level, sx.choice("change", changes))
    check_log(sx, keep, b, "log whose copy changes")
    same_xml(sx, one, doc(sx, b, ser, "four"), "document after a change of the copy")


def summary(sx, kind, ntr, nev, level, changes):
    log = base(sx, "a", kind, ntr, nev, level)
    for i, t in enumerate(log):
        for e in t:
            if "time:timestamp" in e.get_attributes():
                e.get_attributes()["time:timestamp"].set_value(when(sx, "w%d" % i, i))
    c = log.clone()
    info(sx, log, c)
    change(sx, c, level, sx.choice("change", changes))
    info(sx, log, log.clone())
    info(sx, c, c.clone())


def parts(sx, ser, kind):
    """Logs put together from copies of parts are written like the original."""
    log = base(sx, "a", kind, 2, 1, 1)
    f = factory(sx)
    c = f.create_log(log.get_attributes().clone())
    for g, h in ((log.get_global_trace_attributes(), c.get_global_trace_attributes()), (log.get_global_event_attributes(), c.get_global_event_attributes())):
        h.extend([a.clone() for a in g])
    c.get_classifiers().extend(log.get_classifiers())
    for x in log.get_extensions():
        c.get_extensions().add(x)
    for i, t in enumerate(log):
        if i % 2:
            c.append(t.clone())
        else:
            u = f.create_trace(t.get_attributes().clone())
            for e in t:
                u.append(e.clone())
            c.append(u)
    same_xml(sx, doc(sx, log, ser, "one"), doc(sx, c, ser, "two"), "document of the parts")


def large(sx, ser):
    log = large_log(sx, chars="abcXYZ.<&" if ser.startswith("mxml") else None)
    c = log.clone()
    same_xml(sx, doc(sx, log, ser, "one"), doc(sx, c, ser, "two"), "document of the copy")
    if ser == "xes":
        info(sx, log, c)


def scenarios(tier):
    n = (2, 1) if tier == "quick" else (3, 2)
    r = [("large-" + s, lambda sx, s=s: large(sx, s)) for s in ("xes", "mxml")]
    for i, k in enumerate(KINDS):
        for lv in range(3):
            s = ["xes", "mxml", "xesgz", "xes", "mxmlgz"][(i + lv) % 5]
            r.append(("copies-%s-%s-%d" % (s, k, lv), lambda sx, a=(s, k) + n + (lv, CHANGES[(i + lv) % 3::3]): copies(sx, *a)))
            r.append(("summary-%s-%d" % (k, lv), lambda sx, a=(k,) + n + (lv, CHANGES[(i + lv + 1) % 3::3]): summary(sx, *a)))
        for s in ("xes", "mxml"):
            r.append(("parts-%s-%s" % (s, k), lambda sx, a=(s, k): parts(sx, *a)))
    return r
