"""C57: a log that was read is edited like one that was built."""
from props.common import KINDS, attr, cls, put, factory, value, write_log, read_log, check_read_log, large_log
from props.c43 import base, same_xml
BOUNDS = {"quick": "logs of 2 traces of up to 2 events with attributes of every kind (texts of length 1, small integers, all finite doubles and identifiers, instants of fixed offset) nested "
                   "twice and in collections, on any level, with globals, classifiers and extensions; up to 2 edits of 24 kinds one after the other; plain and compressed "
                   "files; a log of 130 traces, 270 events in one of them, 110 attributes and 30 levels with an edit of each kind",
          "thorough": "as quick with every pair of edits on every level"}
OUTSIDE = "doubles inside collections; the characters of the files (the XML libraries are modelled at the level of the infoset); the order of the extension elements"
ASSUMES = ["ElementTree, minidom and expat behave as modelled in symx/xmlstub.py (checked on witnesses at every run)"]
EDITS = ["value", "replace", "remove", "nest", "inner value", "inner remove", "insert event", "copy event", "move event", "delete trace", "order", "new trace",
         "name", "resource", "time", "transition", "cost", "reference", "globals", "classifiers", "extensions", "move attribute", "same event", "attributes"]
SER, PAR = ["data_out.XesXmlSerializer", "data_out.XesXmlGZIPSerializer"], ["data_in.XesXmlParser", "data_in.XesXmlGZIPParser"]


def doc(sx, log, name):
    x = sx.read_xml(write_log(sx, log, name))
    x[3].sort(key=lambda n: (0, dict(n[1])["prefix"]) if n[0] == "extension" else (1, ""))
    return x


def box(a):
    return type(a).__name__ in ("XAttributeList", "XAttributeContainer")


def edit(sx, log, level, what, v):
    """One edit; v: the value it brings."""
    t, e = log[0], log[0][0]
    el = [log, t, e][level]
    keys = list(el.get_attributes().keys())
    ks = [k for k in keys if k.startswith("k")] or keys
    L = cls(sx, "literal")
    if not keys:
        put(el, L("k", v))
        return
    a = el.get_attributes()[ks[0]]
    if what == "value":
        if box(a):
            a.add_to_collection(L("new", v))
        elif type(a).__name__ == "XAttributeLiteral":
            a.set_value(v)
        else:
            a.set_value({"XAttributeDiscrete": 7, "XAttributeContinuous": 0.25, "XAttributeBoolean": True, "XAttributeID": sx.C("id.XID").parse("0" * 32),
                         "XAttributeTimestamp": sx.mk_datetime(1999, 1, 2, 3, 4, 5, tz=sx.mk_zone(60))}[type(a).__name__])
    elif what == "replace":
        put(el, L(a.get_key(), v))
    elif what == "remove":
        del el.get_attributes()[a.get_key()]
    elif what == "nest":
        x = L("new", v)
        put(x, cls(sx, "boolean")("newer", False))
        if box(a):
            a.add_to_collection(x)
        else:
            put(a, x)
    elif what.startswith("inner"):
        x = list(a.get_collection())[-1] if box(a) and a.get_collection() else list(a.get_attributes().values())[-1] if a.get_attributes() else a
        if what == "inner remove" and x is not a and not box(a):
            del a.get_attributes()[x.get_key()]
        elif type(x).__name__ == "XAttributeLiteral":
            x.set_value(v)
        else:
            put(x, L("new", v))
    elif what == "insert event":
        g = factory(sx).create_event()
        put(g, cls(sx, "timestamp")("time:timestamp", sx.mk_datetime(2010, 1, 2, tz=sx.mk_zone(0))))
        put(g, L("concept:name", v))
        log[-1].insert(0, g)
        log[-1].append(factory(sx).create_event())
    elif what == "copy event":
        g = e.clone()
        t.append(g)
        put(g, L("concept:name", v))
    elif what == "move event":
        log[-1].append(t.pop(0))
        t.insert(0, factory(sx).create_event())
    elif what == "delete trace":
        del log[-1]
    elif what == "order":
        log.reverse()
        log[0].reverse()
    elif what == "new trace":
        u = factory(sx).create_trace()
        put(u, L("concept:name", v))
        log.insert(1, u)
        log.append(t.clone())
    elif what == "name":
        sx.C("extension.std.XConceptExtension")().assign_name(el, "x" + v)
    elif what == "resource":
        sx.C("extension.std.XOrganizationalExtension")().assign_resource(e, "x" + v)
    elif what == "time":
        sx.C("extension.std.XTimeExtension")().assign_timestamp(e, sx.mk_datetime(2011, 2, 3, 4, 5, 6, 789000, tz=sx.mk_zone(-90)))
    elif what == "transition":
        sx.C("extension.std.XLifecycleExtension")().assign_transition(e, "x" + v)
    elif what == "cost":
        sx.C("extension.std.XCostExtension").assign_nested_amounts(t, {("k", v): 2.5, ("k",): 1.5})
    elif what == "reference":
        sx.C("extension.std.XSemanticExtension")().assign_model_references(el, ["a", "b" + v])
    elif what == "globals":
        for g, h in ((log.get_global_trace_attributes(), log.get_global_event_attributes()), (log.get_global_event_attributes(), log.get_global_trace_attributes())):
            put(g[0], L("new", v))
            g.append(L("other", v))
            h.insert(0, cls(sx, "discrete")("first", 1))
    elif what == "classifiers":
        c = log.get_classifiers()
        c[0].set_name("x" + v)
        c.append(sx.C("classification.XEventAttributeClassifier")("new", ["new " + v, "b"]))
        c.reverse()
    elif what == "extensions":
        log.get_extensions().add(sx.C("extension.std.XCostExtension")())
        log.get_extensions().discard(sx.C("extension.std.XTimeExtension")())
    elif what == "move attribute":
        del el.get_attributes()[a.get_key()]
        put([t, log, log[-1][-1] if len(log[-1]) else log][level], a)
    elif what == "same event":
        log[-1].append(e)
        log[-1].append(e)
    else:
        m = factory(sx).create_attribute_map()
        m["b"] = L("b", v)
        m[a.get_key()] = a
        el.set_attributes(m)


def back(sx, log, gz):
    p = write_log(sx, log, "a.xes" + (".gz" if gz else ""), SER[gz])
    if not gz:
        return p, read_log(sx, p)
    with sx.open(p, "r") as f:
        return p, sx.C(PAR[1])().parse(f)[0]


def again(sx, p, gz):
    if not gz:
        return read_log(sx, p)
    with sx.open(p, "r") as f:
        return sx.C(PAR[1])().parse(f)[0]


def play(sx, log, gz, edits, v):
    one = doc(sx, log, "one.xes")
    p, r = back(sx, log, gz)
    for i, (level, what) in enumerate(edits):
        edit(sx, log, level, what, v)
        edit(sx, r, level, what, v)
    two, three = doc(sx, log, "two.xes"), doc(sx, r, "three.xes")
    same_xml(sx, two, three, "document after editing")
    check_read_log(sx, log, read_log(sx, sx.path("three.xes")), "log read after editing")
    same_xml(sx, one, doc(sx, again(sx, p, gz), "four.xes"), "document of the log as it was")


def edits(sx, kind, level, whats, gz, nev):
    log = base(sx, "a", kind, 2, nev, level, small=True)
    w = sx.choice("edit", whats)
    ops = [(level, w)]
    play(sx, log, gz, ops, sx.str("v", [1]))


def pairs(sx, kind, level, first, seconds):
    log = base(sx, "a", kind, 2, 1, level, small=True)
    other = sx.choice("second", seconds)
    play(sx, log, 0, [(level, first), ((level + 1) % 3 if other in ("value", "replace", "nest", "name") else level, other)], sx.str("v", [1]))


def big(sx, whats):
    log = large_log(sx, empty=False)
    g = [log.get_global_trace_attributes(), log.get_global_event_attributes()]
    for i, x in enumerate(g):
        x.append(attr(sx, "g%d" % i, "literal", "g", n=[1]))
    log.get_classifiers().append(sx.C("classification.XEventAttributeClassifier")("c", ["a"]))
    w = sx.choice("edit", whats)
    play(sx, log, 0, [(sx.choice("level", [0, 1, 2]) if w in EDITS[:4] else 2, w)], sx.str("v", [1]))


def scenarios(tier):
    q = tier == "quick"
    r = []
    for i in range(0, len(EDITS), 4):
        r.append(("big-%d" % i, lambda sx, w=EDITS[i:i + 4]: big(sx, w)))
    for i, k in enumerate(KINDS):
        for lv in range(3):
            for h in range(2):
                w = EDITS[(i + lv) % 2 + h * 2::4] if q else EDITS[h::2]
                r.append(("edits-%s-%d-%d" % (k, lv, h), lambda sx, a=(k, lv, w, (i + lv + h) % 3 == 0, 1 + (i + lv) % 2): edits(sx, *a)))
    for i, x in enumerate(EDITS):
        for lv in range(3):
            if q and lv != i % 3:
                continue
            r.append(("pairs-%s-%d" % (x.replace(" ", "-"), lv),
                      lambda sx, a=(KINDS[(i + lv) % 8], lv, x, EDITS[i % 6::6] if q else EDITS): pairs(sx, *a)))
    return r
