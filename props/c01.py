"""C01: XES round trip of values, structure and nesting."""
from props.common import (KINDS, COLLECTIONS, VALUE_KINDS, attr, cls, put, factory, write_log, read_log, check_read,
                          check_read_log, value, check_same_map, large_log)
BOUNDS = {"quick": "keys of length 0 to 3 and 40, texts of length 0 to 4 and 70 over printable ASCII and 5 other characters, all "
                   "integers, doubles, identifiers, instants of the years 1 to 9999 with offsets within 14 hours; up to 4 attributes "
                   "per element, nesting depth 2, every pair of kinds nested; 2 traces of up to 3 events, 3 of up to 1; a log of 130 traces, "
                   "270 events in one, 110 attributes, 30 levels and a list of 270, with arbitrary texts and numbers at the ends; attributes, events and traces in several places",
          "thorough": "as quick with keys to length 5, texts to length 8 and 200, nesting depth 3, 3 traces of up to 3 events, 4 of up to 1"}
OUTSIDE = ("control characters other than tab, line feed and carriage return; integers of more than 4300 digits; the bytes of the file "
           "(the XML libraries are modelled at the level of the infoset); nested attributes of lists and containers other than "
           "their contents")
ASSUMES = ["ElementTree, minidom and expat behave as modelled in symx/xmlstub.py (checked on witnesses at every run)"]
LEVELS = ["log", "trace", "event", "nested", "list", "container"]


def place(sx, level, a):
    """A log with the attribute at the level; returns the log and the way to the attribute."""
    f = factory(sx)
    log, t, e = f.create_log(), f.create_trace(), f.create_event()
    log.append(t)
    t.append(e)
    if level in ("log", "trace", "event"):
        put({"log": log, "trace": t, "event": e}[level], a)
        get = {"log": lambda l: l, "trace": lambda l: l[0], "event": lambda l: l[0][0]}[level]
        return log, lambda l: list(get(l).get_attributes().values())[0]
    if level == "nested":
        o = attr(sx, "outer", "boolean", "outer")
        put(o, a)
        put(e, o)
        return log, lambda l: list(l[0][0].get_attributes()["outer"].get_attributes().values())[0]
    o = cls(sx, level)("outer")
    o.add_to_collection(a)
    put(t, o)
    return log, lambda l: list(l[0].get_attributes()["outer"].get_collection())[0]


def single(sx, kind, level, keylens, textlens, mode):
    a = attr(sx, "v", kind, sx.str("key", keylens), n=textlens) if kind == "literal" else \
        attr(sx, "v", kind, sx.str("key", [0, 2]), nan=True) if kind == "continuous" else \
        attr(sx, "v", kind, sx.str("key", [2] if kind == "timestamp" else [0, 2]))
    log, get = place(sx, level, a)
    b = read_log(sx, write_log(sx, log, "a.xes", in_bytes=mode))
    check_read_log(sx, log, b, "log")
    check_read(sx, a, get(b), "attribute")
    if hasattr(a, "get_value"):
        sx.observe("value", get(b).get_value())


def naive(sx):
    a = cls(sx, "timestamp")("k", sx.datetime("v", aware=False))
    log, get = place(sx, "event", a)
    check_read(sx, a, get(read_log(sx, write_log(sx, log, "a.xes"))), "timestamp without offset")


def std_key(sx, kind):
    """Keys of the standard extensions keep their kind whatever it is."""
    k = sx.choice("key", ["concept:name", "time:timestamp", "lifecycle:model", "cost:total", "identity:id", "org:role",
                          "micro:level", "semantic:modelReference", "x:y", ":", "concept:"])
    a = attr(sx, "v", kind, k, small=True)
    if kind in COLLECTIONS:
        a.add_to_collection(attr(sx, "c", "literal", "cost:drivers"))
    log, get = place(sx, sx.choice("level", ["log", "event", "nested"]), a)
    check_read_log(sx, log, read_log(sx, write_log(sx, log, "a.xes")), "log")


def tree(sx, name, kind, depth, width, rot=0):
    a = attr(sx, name, kind, "k" + name, small=True)
    if depth:
        for i in range(width):
            x = tree(sx, "%s%d" % (name, i), KINDS[(KINDS.index(kind) + rot + i) % 8], depth - 1, width, rot + 1)
            if kind in COLLECTIONS:
                a.add_to_collection(x)
            else:
                put(a, x)
    return a


def nesting(sx, kind, depth, width):
    """Every kind nested in every other, on every level of a log with siblings before and after."""
    f = factory(sx)
    log, t, e = f.create_log(), f.create_trace(), f.create_event()
    log.append(t)
    t.append(e)
    rot = sx.choice("rot", range(8))
    level = (rot + KINDS.index(kind)) % 3
    el = [log, t, e][level]
    put(el, attr(sx, "before", "discrete", "before", small=True))
    put(el, tree(sx, "t", kind, depth, width, rot))
    put(el, attr(sx, "after", "literal", "after"))
    for o in (log, t, e):
        put(o, attr(sx, "last%d" % [log, t, e].index(o) if o is not e else "last2", "boolean", "last"))
    check_read_log(sx, log, read_log(sx, write_log(sx, log, "a.xes")), "log")


def pair(sx, kind):
    """Attributes with the same key inside a list keep their number and order; equal keys in a map are one attribute."""
    c = cls(sx, kind)("list")
    k1, k2 = sx.str("k1", [0, 1, 2]), sx.str("k2", [0, 1, 2])
    n = sx.choice("n", range(4))
    for i in range(n):
        c.add_to_collection(attr(sx, "v%d" % i, sx.choice("kind%d" % i, ["literal", "discrete", "list"]), [k1, k2, k1][i], small=True))
    f = factory(sx)
    log = f.create_log()
    put(log, attr(sx, "m0", "literal", k1))
    put(log, attr(sx, "m1", "discrete", k2, small=True))
    put(log, c)
    put(log, attr(sx, "m2", "boolean", k1))
    b = read_log(sx, write_log(sx, log, "a.xes"))
    check_read_log(sx, log, b, "log")


def structure(sx, traces, events):
    f = factory(sx)
    log = f.create_log()
    n = sx.choice("traces", range(traces + 1))
    for i in range(n):
        t = f.create_trace()
        if sx.choice("ta%d" % i, [0, 1]):
            put(t, attr(sx, "t%d" % i, "literal", "concept:name"))
        log.append(t)
        for j in range(sx.choice("events%d" % i, range(events + 1))):
            e = f.create_event()
            put(e, attr(sx, "e%d.%d" % (i, j), "discrete", "n", small=True))
            if j == 0:
                put(e, attr(sx, "d%d.%d" % (i, j), "timestamp", "time:timestamp", small=True))
            t.append(e)
    p = write_log(sx, log, "a.xes")
    check_read_log(sx, log, read_log(sx, p), "log")
    check_read_log(sx, log, read_log(sx, p), "log read again")


def again(sx):
    """Writing what was read gives the same log once more; writing does not change the log."""
    f = factory(sx)
    log, t, e = f.create_log(), f.create_trace(), f.create_event()
    log.append(t)
    t.append(e)
    for i, k in enumerate(KINDS):
        put([log, t, e][i % 3], tree(sx, "t%d" % i, k, 1, 2))
    keep = log.clone()
    b = read_log(sx, write_log(sx, log, "a.xes"))
    for x, y in zip([keep, keep[0], keep[0][0]], [log, log[0], log[0][0]]):
        check_same_map(sx, x, y, "log after writing")
    c = read_log(sx, write_log(sx, b, "b.xes"))
    check_read_log(sx, keep, c, "log written twice")


def shared(sx, where):
    """An element in several places is written in each of them."""
    f = factory(sx)
    log, t, u = f.create_log(), f.create_trace(), f.create_trace()
    e, g = f.create_event(), f.create_event()
    k = sx.choice("kind", KINDS) if where == "attribute" else "list"
    a = attr(sx, "a", k, "a", small=True)
    if k in COLLECTIONS:
        a.add_to_collection(attr(sx, "c", "literal", "c", small=True))
    else:
        put(a, attr(sx, "c", "literal", "c", small=True))
    put(e, cls(sx, "literal")("concept:name", "e"))
    put(t, cls(sx, "literal")("concept:name", "t"))
    if where == "attribute":
        o = attr(sx, "o", sx.choice("outer", ["literal", "list", "container"]), "o", small=True)
        if hasattr(o, "add_to_collection"):
            o.add_to_collection(a)
            o.add_to_collection(a)
        else:
            put(o, a)
        for x in (log, t, u, e, g):
            put(x, a, o)
    put(g, a)
    for i in range(4):
        [t, u][sx.choice("trace%d" % i, [0, 1])].append([e, g][sx.choice("event%d" % i, [0, 1])] if where == "event" else e)
    n = sx.choice("traces", [1, 2, 3]) if where == "trace" else 2
    log.append(t)
    for i in range(n):
        log.append([t, u][sx.choice("of%d" % i, [0, 1])] if where == "trace" else u)
    check_read_log(sx, log, read_log(sx, write_log(sx, log, "a.xes")), "log")


def large(sx, mode):
    log = large_log(sx)
    check_read_log(sx, log, read_log(sx, write_log(sx, log, "a.xes", in_bytes=mode)), "log")


def whitespace(sx, what):
    """Tabs and line ends in texts and keys."""
    s = sx.str("s", [1, 2, 3], ws=True)
    a = cls(sx, "literal")("key" if what == "value" else s, s if what == "value" else "x")
    log, get = place(sx, "event", a)
    if what == "inner":
        pass
    check_read(sx, a, get(read_log(sx, write_log(sx, log, "a.xes"))), "attribute")


def scenarios(tier):
    q = tier == "quick"
    kl = [0, 1, 2, 3] if q else [0, 1, 2, 3, 4, 5]
    tl = [0, 1, 2, 3, 4] if q else list(range(9))
    r = []
    for k in KINDS:
        for lv in LEVELS:
            r.append(("%s-in-%s" % (k, lv), lambda sx, k=k, lv=lv: single(sx, k, lv, kl, tl, None)))
    r += [("literal-long", lambda sx: single(sx, "literal", "event", [40], [70] if q else [200], None)),
          ("literal-bytes", lambda sx: single(sx, "literal", "event", [3], [4], True)),
          ("literal-text", lambda sx: single(sx, "literal", "event", [3], [4], False)),
          ("timestamp-bytes", lambda sx: single(sx, "timestamp", "trace", [3], [4], True)),
          ("naive", naive), ("again", again),
          ("structure", lambda sx: structure(sx, 2 if q else 3, 3), {"weight": 3}),
          ("structure-wide", lambda sx: structure(sx, 3 if q else 4, 1), {"weight": 3})]
    r += [("shared-" + w, lambda sx, w=w: shared(sx, w)) for w in ("event", "trace", "attribute")]
    r += [("large", lambda sx: large(sx, None)), ("large-bytes", lambda sx: large(sx, True))]
    r += [("std-key-" + k, lambda sx, k=k: std_key(sx, k)) for k in KINDS]
    r += [("nesting-" + k, lambda sx, k=k: nesting(sx, k, 2 if q else 3, 2), {"weight": 2}) for k in KINDS]
    r += [("pair-" + k, lambda sx, k=k: pair(sx, k)) for k in COLLECTIONS]
    r += [("whitespace-" + w, lambda sx, w=w: whitespace(sx, w), {"finding": "xes-whitespace"}) for w in ("value", "key")]
    return r
