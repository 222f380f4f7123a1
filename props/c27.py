"""C27: the XES reader on documents that the library did not write."""
from props.common import KINDS, VALUE_KINDS, COLLECTIONS, cls
BOUNDS = {"quick": "documents with up to 3 traces and 3 events (one of 15 traces of 14, ones with 16 attributes and 13 levels, mostly of fixed values), up to 3 attributes per element and nesting to depth 3, of every kind at every level; texts of length 0 to 2 "
                   "and 60, integers of up to 6 digits with sign and leading zeros, all dates of C04 with narrow fields; invalid dates at every level and depth; every order of five children of "
                   "the log; tags in three case variants; unknown elements and comments of text anywhere",
          "thorough": "as quick with longer texts and every order of six children"}
OUTSIDE = "malformed integers, numbers and identifiers (the reader raises); attributes inside unknown elements; two attributes with the same key on one element"
ASSUMES = ["xml.sax reports documents as modelled in symx/xmlstub.py (checked on witnesses at every run)"]
TAG = {"literal": "string", "discrete": "int", "continuous": "float", "boolean": "boolean", "timestamp": "date", "id": "id", "list": "list",
       "container": "container"}


class A:
    """An attribute element: kind, key (None: missing), value text (None: missing), expected value, children."""

    def __init__(self, kind, key, text, value, kids=(), valid=True):
        self.kind, self.key, self.text, self.value, self.kids, self.valid = kind, key, text, value, list(kids), valid

    def xml(self, case):
        d = {}
        if self.key is not None:
            d["key"] = self.key
        if self.text is not None:
            d["value"] = self.text
        return (case(TAG[self.kind]), d, [k.xml(case) if isinstance(k, A) else k for k in self.kids], None)


def low(s):
    return s


CASES = {"lower": low, "upper": str.upper, "title": str.title}


def val(sx, name, kind, lens=(0, 1, 2), few=False):
    """(text, value) of the kind; few: one notation only."""
    def choice(name, opts):
        return opts[0] if few else sx.choice(name, opts)
    if kind == "literal":
        s = sx.str(name, list(lens))
        return s, s
    if kind == "discrete":
        n = sx.int(name, 0, 999)
        neg = choice(name + "sign", ["", "-", "+", "00"])
        return neg + str(n), (-n if neg == "-" else n)
    if kind == "continuous":
        t = choice(name, ["1.5", "-0.25", "1e300", "3", "NaN", "inf", "-7E-3"])
        return t, float(t)
    if kind == "boolean":
        t = choice(name, ["true", "TRUE", "True", "false", "FALSE", ""])
        return t, t.lower() == "true"
    if kind == "timestamp":
        h, m = sx.int(name + "h", 0, 23), sx.int(name + "m", 0, 59)
        z = choice(name + "z", ["Z", "+02:00", "-03:30"])
        off = {"Z": 0, "+02:00": 120, "-03:30": -210}[z]
        return "2020-02-29T%02d:%02d:07.125%s" % (h, m, z), sx.mk_datetime(2020, 2, 29, h, m, 7, 125000, tz=sx.mk_zone(off))
    if kind == "id":
        u = sx.uuid(name)
        return (str(u) if choice(name + "case", [0, 1]) else str(u).upper()), u
    return None, None


def att(sx, name, kind, key=None, kids=(), lens=(0, 1, 2), few=False):
    t, v = val(sx, name, kind, lens, few)
    return A(kind, name if key is None else key, t, v, kids)


BAD = ["", "yesterday", "2020-13-01T00:00:00", "2020-02-30T00:00:00Z", "2020-01-01", "20200101T000000Z", "2020-01-01T24:00:00+01:00"]


def bad(sx, name, kids=()):
    return A("timestamp", name, sx.choice(name + "bad", BAD), None, kids, False)


def check_attr(sx, got, a, what):
    sx.check(type(got) is cls(sx, a.kind), what + ": kind")
    key = "UNKNOWN" if a.key is None else a.key
    sx.check(got.get_key() == key, what + ": key")
    exp = None
    if ":" in key:
        exp = sx.C("extension.XExtensionManager")().get_by_prefix(key[:key.index(":")])
    sx.check(got.get_extension() is exp, what + ": extension of the prefix")
    kids = [k for k in a.kids if isinstance(k, A) and k.valid]
    if a.kind in COLLECTIONS:
        c = list(got.get_collection())
        sx.check(len(c) == len(kids), what + ": contents")
        for x, y in zip(c, kids):
            check_attr(sx, x, y, what + "[]")
        return
    v = got.get_value()
    if a.kind == "id":
        sx.check(v.get_uuid() == a.value, what + ": value")
    elif a.kind == "continuous":
        sx.check(sx.same_float(v, a.value), what + ": value")
    else:
        sx.check(v == a.value, what + ": value")
        if a.kind == "timestamp":
            sx.check(v.utcoffset() == a.value.utcoffset(), what + ": offset")
    check_attrs(sx, got, kids, what + "/")


def check_attrs(sx, el, atts, what):
    atts = [a for a in atts if isinstance(a, A) and a.valid]
    m = el.get_attributes()
    sx.check(len(m) == len(atts), what + ": number of attributes")
    for (k, x), a in zip(list(m.items()), atts):
        sx.check(k == ("UNKNOWN" if a.key is None else a.key), what + ": under its key")
        check_attr(sx, x, a, what)


def doc(sx, logatts, traces, case=low, attrs=None, extra=(), name="doc.xes"):
    """traces: list of (attributes, events), events: lists of attributes; other nodes may be mixed in."""
    def kids(atts):
        return [a.xml(case) if isinstance(a, A) else a for a in atts]
    ts = []
    for t in traces:
        if isinstance(t, tuple) and len(t) == 2:
            ts.append((case("trace"), {}, kids(t[0]) + [(case("event"), {}, kids(e), None) for e in t[1]], None))
        else:
            ts.append(t)
    p = sx.path(name)
    sx.write_xml(p, (case("log"), attrs or {"xes.version": "1.0"}, list(extra) + kids(logatts) + ts, None))
    logs = sx.C("data_in.XesXmlParser")().parse(p)
    sx.check(len(logs) == 1, "one log")
    return logs[0]


def check_log(sx, log, logatts, traces):
    check_attrs(sx, log, logatts, "log")
    traces = [t for t in traces if len(t) == 2]
    sx.check(len(log) == len(traces), "number of traces")
    for t, (atts, evs) in zip(log, traces):
        check_attrs(sx, t, atts, "trace")
        sx.check(len(t) == len(evs), "number of events")
        for e, ea in zip(t, evs):
            check_attrs(sx, e, ea, "event")


def fixed(i):
    return A("literal", "f%d" % i, "fix %d" % i, "fix %d" % i)


def level(sx, kind, lv, lens=(0, 1, 2)):
    """One symbolic attribute of the kind on a level, fixed ones on the others, one nested and one behind."""
    a = att(sx, "a", kind, sx.str("key", [0, 1, 2]), [fixed(1), fixed(2)], lens=lens)
    sx.assume(a.key != "f3")
    own = {k: [fixed(3)] for k in ("log", "trace", "event")}
    own[lv] = [a, fixed(3)]
    tr = [(own["trace"], [own["event"], [fixed(4)]]), ([], [[], [fixed(5)]])]
    check_log(sx, doc(sx, own["log"], tr), own["log"], tr)


def prefixed(sx, kind):
    """Keys with the prefix of a standard extension, or nearly."""
    p = sx.choice("p", ["concept", "time", "org", "Org", "", "tim", "timer", "concept:name"])
    a = att(sx, "a", kind, p + ":" + sx.str("rest", [0, 1]))
    b = A("literal", "org", "x", "x")
    tr = [([], [[a, b]])]
    check_log(sx, doc(sx, [], tr), [], tr)


def nested(sx, outer, inner, depth):
    """Kinds nested in each other."""
    a = att(sx, "a", inner, few=outer != "literal")
    for i in range(depth):
        a = att(sx, "o%d" % i, outer if i % 2 == 0 else "container", kids=[fixed(1), a, fixed(2)], few=True, lens=(1,))
    tr = [([a], [[fixed(3)]])]
    check_log(sx, doc(sx, [fixed(0)], tr), [fixed(0)], tr)


def invalid(sx, lv, depth, outer):
    """An attribute with an invalid date, with nested ones, among others."""
    deep = [fixed(7), A("list", "l", None, None, [fixed(8)]), A("timestamp", "x2", "nonsense", None, [fixed(9)], False), att(sx, "t", "timestamp", few=True)]
    b = bad(sx, "b", deep if sx.choice("deep", [0, 1]) else [])
    for i in range(depth):
        b = att(sx, "o%d" % i, outer if i == 0 else "literal", kids=[fixed(1), b, fixed(2)], lens=(1,), few=True)
    own = {k: [fixed(3)] for k in ("log", "trace", "event")}
    own[lv] = [fixed(4), b, att(sx, "d", "discrete", few=True)] + ([A("timestamp", "b2", "no", None, [], False), fixed(5)] if sx.choice("two", [0, 1]) else [])
    tr = [(own["trace"], [own["event"], [fixed(6)]]), ([fixed(6)], [[fixed(0)]])]
    check_log(sx, doc(sx, own["log"], tr), own["log"], tr)


def tags(sx, c):
    """Tags in another case, all kinds."""
    atts = [att(sx, "a%d" % i, k, kids=[fixed(1)], lens=(1,), few=True) for i, k in enumerate(KINDS)]
    tr = [(atts[:2], [atts[2:5], []]), ([], [atts[5:]])]
    ext = [(CASES[c]("extension"), {"name": "Concept", "prefix": "concept", "uri": "http://www.xes-standard.org/concept.xesext"}, [], None),
           (CASES[c]("global"), {"scope": "EVENT"}, [fixed(9).xml(CASES[c])], None),
           (CASES[c]("classifier"), {"name": "c", "keys": "k1 k2"}, [], None)]
    log = doc(sx, [fixed(1)], tr, CASES[c], extra=ext)
    check_log(sx, log, [fixed(1)], tr)
    sx.check([e.get_prefix() for e in log.get_extensions()] == ["concept"], "extension in another case")
    sx.check([g.get_key() for g in log.get_global_event_attributes()] == ["f9"] and len(log.get_global_trace_attributes()) == 0, "global in another case")
    sx.check([list(x.get_defining_attribute_keys()) for x in log.get_classifiers()] == [["k1", "k2"]], "classifier in another case")


def order(sx, perm, unknown):
    """Children of the log in any order, unknown elements between."""
    v = sx.str("v", [0, 1])
    g = sx.str("g", [0, 1])
    parts = {"attr": fixed(1).xml(low), "trace": ("trace", {}, [A("literal", "t", v, v).xml(low), ("event", {}, [fixed(2).xml(low)], None)], None),
             "ext": ("extension", {"name": "Time", "prefix": "time", "uri": "http://www.xes-standard.org/time.xesext"}, [], None),
             "global": ("global", {"scope": "trace"}, [A("literal", "g", g, g, [fixed(3)]).xml(low)], None),
             "clf": ("classifier", {"name": "n", "keys": "a 'b c'"}, [], None),
             "trace2": ("trace", {}, [("event", {}, [], None), ("event", {}, [fixed(4).xml(low)], None)], None)}
    kids = []
    for p in perm:
        kids.append(parts[p])
        if unknown:
            kids.append(("unknown", {"key": "x", "value": "y", "scope": "event"}, [("inner", {"key": "z"}, [], "text")] if unknown > 1 else [], None))
    p = sx.path("doc.xes")
    sx.write_xml(p, ("log", {}, kids, None))
    log = sx.C("data_in.XesXmlParser")().parse(p)[0]
    check_attrs(sx, log, [fixed(1)] if "attr" in perm else [], "log")
    exp = [x for x in perm if x.startswith("trace")]
    sx.check(len(log) == len(exp), "traces")
    for t, x in zip(log, exp):
        if x == "trace":
            check_attrs(sx, t, [A("literal", "t", v, v)], "trace")
            sx.check(len(t) == 1, "events")
            check_attrs(sx, t[0], [fixed(2)], "event")
        else:
            check_attrs(sx, t, [], "trace")
            sx.check(len(t) == 2, "events")
            check_attrs(sx, t[0], [], "event")
            check_attrs(sx, t[1], [fixed(4)], "event")
    sx.check(len(log.get_extensions()) == (1 if "ext" in perm else 0), "extensions")
    gs = list(log.get_global_trace_attributes())
    sx.check(len(gs) == (1 if "global" in perm else 0) and len(log.get_global_event_attributes()) == 0, "globals")
    if gs:
        check_attr(sx, gs[0], A("literal", "g", g, g, [fixed(3)]), "global")
    cs = log.get_classifiers()
    sx.check(len(cs) == (1 if "clf" in perm else 0), "classifiers")
    if len(cs):
        sx.check(cs[0].name() == "n" and list(cs[0].get_defining_attribute_keys()) == ["a", "b c"], "classifier")


def missing(sx, kind, lv):
    """Missing keys and values."""
    t, v = val(sx, "a", kind)
    a = A(kind, None, t, v, [fixed(1)])
    own = {k: [] for k in ("log", "trace", "event")}
    own[lv] = [a, A("literal", "nothing", None, ""), fixed(2)]
    tr = [(own["trace"], [own["event"]])]
    check_log(sx, doc(sx, own["log"], tr), own["log"], tr)


def exts(sx):
    """Known and unknown extensions, by prefix or by URI."""
    pre = sx.str("pre", [1, 4])
    known = ["concept", "lifecycle", "org", "time", "micro", "cost", "identity", "semantic"]
    for k in known:
        sx.assume(pre != k)
    u = sx.choice("uri", ["http://www.xes-standard.org/org.xesext", "http://www.xes-standard.org/other.xesext", None])
    d = {"name": "X", "prefix": pre}
    if u is not None:
        d["uri"] = u
    ext = [("extension", {"name": "Cost", "prefix": "cost", "uri": "http://elsewhere/cost.xesext"}, [], None), ("extension", d, [], None),
           ("extension", {"name": "Time", "uri": "http://www.xes-standard.org/time.xesext"}, [], None)]
    tr = [([fixed(1)], [[fixed(2)]])]
    log = doc(sx, [], tr, extra=ext)
    check_log(sx, log, [], tr)
    exp = ["cost", "time"] + (["org"] if u and "org.xesext" in u else [])
    sx.check(sorted(e.get_prefix() for e in log.get_extensions()) == sorted(exp), "known extensions only")


def features(sx):
    a, b = sx.str("a", [0, 1, 2]), sx.str("b", [0, 1, 2])
    log = doc(sx, [], [], attrs={"xes.version": a, "openxes.version": b, "xes.features": "arbitrary-depth", "other": "x"})
    f = log.get_features()
    sx.check(len(f) == 3, "features")
    sx.check(f["xes.version"] == a and f["openxes.version"] == b and f["xes.features"] == "arbitrary-depth", "values of features")


def flags(sx, lv):
    """Both notations that XML Schema has for a boolean, on any level and as content of a collection."""
    def flag(name):
        t = sx.choice(name, ["1", "0", "true", "false"])
        return A("boolean", name, t, t in ("1", "true"))
    own = {k: [fixed(3)] for k in ("log", "trace", "event")}
    own[lv] = [flag("a"), A("list", "l", None, None, [flag("b"), fixed(1)]), A("discrete", "n", "1", 1, [flag("c")])]
    tr = [(own["trace"], [own["event"], [fixed(4)]])]
    check_log(sx, doc(sx, own["log"], tr), own["log"], tr)


def big(sx, nt, ne):
    """More traces and events; one value arbitrary."""
    v = sx.str("v", [1])
    tr = []
    for t in range(nt):
        tr.append(([A("literal", "n", "t%d" % t, "t%d" % t)],
                   [[A("literal", "n", v if (t, e) == (nt - 1, 0) else "e%d" % e, v if (t, e) == (nt - 1, 0) else "e%d" % e)] for e in range(ne + t % 2)]))
    check_log(sx, doc(sx, [fixed(1)], tr), [fixed(1)], tr)


def wide(sx, lv, n, depth):
    """Many attributes, long collections and deep nesting on one level."""
    atts = []
    for i in range(n):
        a = att(sx, "w%d" % i, KINDS[i % 8], kids=[fixed(j) for j in range(i if KINDS[i % 8] in COLLECTIONS else 0)], few=True, lens=(1,)) if i == n - 1 else \
            A("literal", "w%d" % i, "x%d" % i, "x%d" % i, [fixed(j) for j in range(i)])
        atts.append(a)
    a = att(sx, "deep", "literal", few=True, lens=(1,))
    for i in range(depth):
        a = A(*[("literal", "d%d" % i, "y", "y"), ("list", "d%d" % i, None, None), ("discrete", "d%d" % i, "7", 7), ("container", "d%d" % i, None, None),
                ("boolean", "d%d" % i, "true", True)][i % 5], [fixed(1), a, fixed(2)])
    atts.append(a)
    own = {k: [fixed(3)] for k in ("log", "trace", "event")}
    own[lv] = atts + [fixed(4)]
    tr = [(own["trace"], [own["event"], [fixed(4)]]), ([], [[], [fixed(5)]])]
    check_log(sx, doc(sx, own["log"], tr), own["log"], tr)


def scenarios(tier):
    import itertools
    q = tier == "quick"
    r = [("level-%s-%s" % (k, lv), lambda sx, k=k, lv=lv: level(sx, k, lv, (0, 1, 2) if q else (0, 1, 2, 3, 4))) for k in KINDS for lv in ("log", "trace", "event")]
    r += [("long-" + lv, lambda sx, lv=lv: level(sx, "literal", lv, (60,))) for lv in ("log", "trace", "event")]
    r += [("prefixed-" + k, lambda sx, k=k: prefixed(sx, k)) for k in KINDS]
    r += [("nested-%s-%s" % (o, i), lambda sx, o=o, i=i: nested(sx, o, i, 1 if o != "list" else 2)) for o in KINDS for i in KINDS]
    r += [("invalid-%s-%d-%s" % (lv, d, o), lambda sx, lv=lv, d=d, o=o: invalid(sx, lv, d, o))
          for lv in ("log", "trace", "event") for d, o in ((0, ""), (1, "literal"), (1, "list"), (1, "container"), (2, "list"), (2, "discrete"))]
    r += [("tags-" + c, lambda sx, c=c: tags(sx, c)) for c in CASES]
    names = ["attr", "trace", "ext", "global", "trace2"] + ([] if q else ["clf"])
    for i, perm in enumerate(itertools.permutations(names)):
        r.append(("order-" + "-".join(perm), lambda sx, perm=perm, i=i: order(sx, perm, i % 3)))
    r += [("clf-%d" % n, lambda sx, n=n: order(sx, ("trace", "clf", "attr"), n)) for n in range(3)]
    r += [("missing-%s-%s" % (k, lv), lambda sx, k=k, lv=lv: missing(sx, k, lv)) for k in KINDS for lv in ("log", "trace", "event")]
    r += [("flags-" + lv, lambda sx, lv=lv: flags(sx, lv)) for lv in ("log", "trace", "event")]
    r += [("exts", exts), ("features", features), ("big-3", lambda sx: big(sx, 3, 1)), ("big-5", lambda sx: big(sx, 5, 3)), ("big-15", lambda sx: big(sx, 15, 14))]
    r += [("wide-%s-%d" % (lv, n), lambda sx, lv=lv, n=n: wide(sx, lv, n, n - 3)) for lv in ("log", "trace", "event") for n in (12, 16)]
    return r
