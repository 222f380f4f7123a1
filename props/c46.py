"""C46: reading depends on the document alone."""
from props.common import (large_log, write_log, KINDS, COLLECTIONS, cls, factory, snap, snap_map, check_snap, check_snap_map)
from props.c43 import snap_log, check_log, header
from props.c27 import A, att, low
from props.c28 import Doc, entry, instance, process, verify
BOUNDS = {"quick": "documents of both formats, plain and compressed, with up to 2 traces of 2 events, attributes of every kind on every level, nested and in collections, "
                   "globals, classifiers, extensions; three documents whose values resemble each other (4 to 12 per kind); texts of length 0 to 2 (in MXML names of a limited alphabet), integers, dates and identifiers arbitrary; up to 3 readings with one parser, of different "
                   "documents, of the same one, of one file written again, and after seven kinds of documents that cannot be read; a document of 130 traces, 270 events in one of them, 30 levels",
          "thorough": "as quick with texts of length 0 to 4, after two unreadable documents"}
OUTSIDE = "documents that are not well-formed; what several logs of one MXML document share (their source)"
ASSUMES = ["xml.sax reports documents as modelled in symx/xmlstub.py (checked on witnesses at every run)"]
XES = ["data_in.XesXmlParser", "data_in.XesXmlGZIPParser"]
MXML = ["data_in.XMxmlParser", "data_in.XMxmlGZIPParser"]
PREFIXES = {"c": "concept", "t": "time", "o": "org"}


def xes(sx, name, kind, level, prefix="", lens=(0, 1, 2)):
    """A document with a symbolic attribute of the kind on the level and fixed things everywhere."""
    a = att(sx, name + "v", kind, prefix + "key", [att(sx, name + "n", "literal", "deep", [A("discrete", "deeper", "7", 7)], lens=(1,)), A("list", "li", None, None, [
        A("literal", "x", "1", "1"), A("container", "co", None, None, [A("boolean", "y", "true", True)])])], lens=lens).xml(low)
    f = A("literal", name + "f", "fix " + name, None).xml(low)
    on = {"log": [f], "trace": [f], "event": [f], "gt": [], "ge": []}
    on[level] = on[level] + [a]
    kids = [("extension", {"name": "Time", "prefix": "time", "uri": "http://www.xes-standard.org/time.xesext"}, [], None)] if name != "b" else []
    if on["gt"]:
        kids.append(("global", {"scope": "trace"}, on["gt"], None))
    if on["ge"]:
        kids.append(("global", {"scope": "event"}, on["ge"], None))
    if name != "b":
        kids.append(("classifier", {"name": name, "keys": "k 'l m' " + name}, [], None))
    ev = ("event", {}, on["event"], None)
    kids += on["log"] + [("trace", {}, on["trace"] + [ev, ("event", {}, [f], None)], None), ("trace", {}, [ev] if name == "b" else [], None)]
    return ("log", {"xes.version": "1." + name} if name != "b" else {}, kids, None)


def mxml(sx, name, what, lens=(0, 1, 2)):
    def data(k, v, m=None):
        return ("Data", {}, [("Attribute", dict({"name": k}, **({"modelReference": m} if m else {})), [], v)], None)
    # white space only in the longest texts of the first document: it makes many cases
    plain = {} if name == "a" and what in ("data", "originator") else {"chars": "abcXYZ._-"}
    v = sx.str(name + "v", list(lens) if plain else [max(lens)], **plain)
    m = sx.str(name + "m", [1], chars="abc:/# ")
    w = sx.str(name + "w", [1], chars="abcXYZ._-")
    h = sx.int(name + "h", 0, 23)
    both = what == "all"
    e = [("WorkflowModelElement", {"modelReference": m} if both else {}, [], "act " + v),
         ("EventType", {"unknownType": w} if both or what == "unknown" else {"modelReference": m}, [], "unknown" if both or what == "unknown" else "start")]
    if both or what == "time":
        e.append(("Timestamp", {}, [], "2020-02-29T%02d:00:07.125+02:00" % h))
    if both or what == "originator":
        e.append(("Originator", {"modelReference": m} if both else {}, [], "x" + v))
    if both or what == "data":
        e.insert(0, data("d", v + "." + w, m))
        e.append(data("d2", "y"))
    ent = ("AuditTrailEntry", {}, e, None)
    bare = ("AuditTrailEntry", {}, [("WorkflowModelElement", {}, [], "n")], None)
    inst = ("ProcessInstance", dict({"id": w}, **({"description": v, "modelReference": m} if both else {})), ([data("t", "u" + v), data("t2", w, m)] if both else []) + [ent, bare], None)
    kids = [("Process", dict({"id": w}, **({"description": v, "modelReference": m} if both else {})), ([data("l", "u" + v, m), data("l2", "z")] if both else []) + [inst, (
        "ProcessInstance", {}, [bare, ent], None)], None)]
    if name != "b":
        kids.insert(0, ("Source", {"program": "p" + v}, [data("s", w), data("s2", "z" + v, m)] if both else [], None))
    return ("WorkflowLog", {}, kids, None)


def put_file(sx, tree, name, gz):
    p = sx.path("raw-" + name if gz else name)
    sx.write_xml(p, tree)
    if gz:
        sx.write_gz(p, sx.path(name))
    return sx.path(name)


def objects(log):
    """Identities of everything mutable in a log."""
    seen = {}

    def amap(e):
        m = e.get_attributes()
        seen[id(m)] = m
        for a in m.values():
            att_(a)

    def att_(a):
        seen[id(a)] = a
        amap(a)
        if type(a).__name__ in ("XAttributeList", "XAttributeContainer"):
            for x in a.get_collection():
                att_(x)
    seen[id(log)] = log
    amap(log)
    for x in (log.get_global_trace_attributes(), log.get_global_event_attributes(), log.get_classifiers(), log.get_extensions(), log.get_features()):
        seen[id(x)] = x
    for g in list(log.get_global_trace_attributes()) + list(log.get_global_event_attributes()):
        att_(g)
    for t in log:
        seen[id(t)] = t
        amap(t)
        for e in t:
            seen[id(e)] = e
            seen[id(e.get_id())] = e
            amap(e)
    return seen


def apart(sx, logs, what):
    """Logs of different readings have nothing in common, not even identifiers."""
    sets = [objects(x) for x in logs]
    for i in range(len(sets)):
        for j in range(i):
            sx.check(not [k for k in sets[i] if k in sets[j]], what + ": nothing shared")
    es = [e for x in logs for t in x for e in t]
    for i in range(len(es)):
        for j in range(i):
            sx.check(not (es[i].get_id() == es[j].get_id()), what + ": events of their own")


def same_log(sx, a, b, what):
    """Two logs read from the same document say the same."""
    sx.check(len(a) == len(b), what + ": traces")
    check_snap_map(sx, snap_map(a), b, what + ": log")
    for t, u in zip(a, b):
        check_snap_map(sx, snap_map(t), u, what + ": trace")
        sx.check(len(t) == len(u), what + ": events")
        for e, g in zip(t, u):
            check_snap_map(sx, snap_map(e), g, what + ": event")
    for g, h in ((a.get_global_trace_attributes(), b.get_global_trace_attributes()), (a.get_global_event_attributes(), b.get_global_event_attributes())):
        sx.check(len(g) == len(h), what + ": globals")
        for x, y in zip(g, h):
            check_snap(sx, snap(x), y, what + ": global")
    h, k = header(a), header(b)
    sx.check(len(h[0]) == len(k[0]), what + ": classifiers")
    for (_, n, ks), (_, m, js) in zip(h[0], k[0]):
        sx.check(n == m and len(ks) == len(js) and all(x == y for x, y in zip(ks, js)), what + ": classifier")
    sx.check(h[1] == k[1], what + ": extensions")
    sx.check(h[2] == k[2], what + ": features")


def read(sx, parser, path):
    with sx.open(path, "r") as f:
        logs = list(parser.parse(f))
    sx.check(len(logs) == 1, "one log is read")
    return logs[0]


def environment(sx):
    """What is registered besides: prototypes of the standard extensions, defaults, aliases."""
    m = sx.C("extension.XExtensionManager")()
    exts = [m.get_by_index(i) for i in range(8)]
    sx.check(m.get_by_index(8) is None, "standard extensions only")
    atts = {}
    for n, x in sorted((x.get_prefix(), x) for x in exts):
        lv = [list(g()) for g in (x.get_log_attributes, x.get_trace_attributes, x.get_event_attributes, x.get_meta_attributes)]
        own = [v for k, v in sorted(vars(type(x)).items()) + sorted(vars(x).items()) if k.startswith("ATTR_")]
        atts[n] = (x, [len(v) for v in lv], [(a, snap(a)) for v in lv + [own] for a in v])
    g = sx.C("info.XGlobalAttributeNameMap")()
    return (atts, sx.C("factory.XFactoryRegistry")().current_default(), len(list(sx.C("data_in.XParserRegistry")().get_available())),
            sx.C("data_in.XParserRegistry")().current_default(), sorted(g.get_available_mapping_names()),
            [(n, k, g.get_mapping(n).map(k)) for n in sorted(g.get_available_mapping_names()) for k in ("concept:name", "time:timestamp", "org:resource")])


def check_environment(sx, env, what):
    now = environment(sx)
    sx.check(sorted(now[0]) == sorted(env[0]), what + ": extensions")
    for n, (x, k, atts) in env[0].items():
        y, l, bs = now[0][n]
        sx.check(y is x and l == k and len(bs) == len(atts), what + ": attributes of an extension")
        for a, s in atts:
            check_snap(sx, s, a, what + ": attribute of an extension")
    for i, m in ((1, "factory"), (3, "default parser")):
        sx.check(now[i] is env[i], what + ": " + m)
    sx.check(now[2] == env[2] and now[4] == env[4] and now[5] == env[5], what + ": registered things")


def parsers(sx, fmt, gz, how):
    c = (XES if fmt == "xes" else MXML)[gz]
    new = sx.C(c)
    if how == "own":
        return new(), new
    if how == "universal":
        u = sx.C("data_in.XUniversalParser")()
        return u, new
    cs = [p for p in sx.C("data_in.XParserRegistry")().get_available() if type(p).__name__ == c.split(".")[1]]
    sx.check(len(cs) >= 1, "registered parser")
    return cs[0], new


def tree(sx, fmt, name, kind, lens):
    if fmt == "mxml":
        return mxml(sx, name, kind, lens)
    k, level, prefix = kind
    return xes(sx, name, k, level, prefix, lens)


def again(sx, fmt, gz, how, ka, kb, lens):
    """Reading a, then b, then a again with one parser."""
    names = [("d%d." % i) + fmt + (".gz" if gz else "") for i in range(2)]
    pa = put_file(sx, tree(sx, fmt, "a", ka, lens), names[0], gz)
    pb = put_file(sx, tree(sx, fmt, "b", kb, (1,)), names[1], gz)
    parser, new = parsers(sx, fmt, gz, how)
    env = environment(sx)
    ref = read(sx, new(), pb)
    a = read(sx, parser, pa)
    keep = snap_log(a)
    b = read(sx, parser, pb)
    same_log(sx, ref, b, "read after another one")
    check_log(sx, keep, a, "what was read before")
    c = read(sx, parser, pa)
    same_log(sx, a, c, "read once more")
    check_log(sx, keep, a, "what was read before")
    apart(sx, [ref, a, b, c], "readings")
    check_environment(sx, env, "after reading")
    # neither does it depend on what was done to the logs read before
    keep = snap_log(c)
    for x in (a, b):
        for k in x.get_classifiers():
            k.set_name("renamed")
            k.get_defining_attribute_keys().append("more")
        for x in list(x.get_global_trace_attributes()) + list(x.get_global_event_attributes()):
            x.get_attributes()["new"] = cls(sx, "literal")("new", "new")
    check_log(sx, keep, c, "after changing a log read before")
    same_log(sx, c, read(sx, parser, pa), "read after changing a log read before")


def big(sx, c, how):
    """A large document, read twice, with a small one in between."""
    p = write_log(sx, large_log(sx), "big.xes" + (".gz" if c else ""), "data_out.XesXml%sSerializer" % ("GZIP" if c else ""))
    pb = put_file(sx, xes(sx, "b", "literal", "event", "", (1,)), "b.xes", 0)
    parser, new = parsers(sx, "xes", c, how)
    a = read(sx, new(), p)
    b = read(sx, parser, p)
    same_log(sx, a, b, "read by another parser")
    keep = snap_log(b)
    read(sx, sx.C("data_in.XesXmlParser")(), pb)
    d = read(sx, parser, p)
    same_log(sx, a, d, "read once more")
    check_log(sx, keep, b, "what was read before")
    sets = [objects(x) for x in (a, b, d)]
    for i in range(3):
        for j in range(i):
            sx.check(not [k for k in sets[i] if k in sets[j]], "nothing shared")


def overwritten(sx, fmt, gz, how, ka, kb, lens):
    """The file is written anew between the readings."""
    name = "d." + fmt + (".gz" if gz else "")
    parser, new = parsers(sx, fmt, gz, how)
    ta, tb = tree(sx, fmt, "a", ka, lens), tree(sx, fmt, "b", kb, (1,))
    ref = read(sx, new(), put_file(sx, tb, "ref." + fmt + (".gz" if gz else ""), gz))
    a = read(sx, parser, put_file(sx, ta, name, gz))
    keep = snap_log(a)
    b = read(sx, parser, put_file(sx, tb, name, gz))
    same_log(sx, ref, b, "file written anew")
    check_log(sx, keep, a, "what was read before")
    apart(sx, [ref, a, b], "readings")


L1 = ("string", {"key": "k", "value": "1"}, [], None)
BADINT = ("int", {"key": "bad", "value": "x1"}, [], None)


def bad_xes(kind):
    t = ("trace", {}, [L1, ("event", {}, [L1], None)], None)
    if kind == "event":
        return [("extension", {"prefix": "cost", "uri": "http://www.xes-standard.org/cost.xesext"}, [], None), ("classifier", {"name": "n", "keys": "q r"}, [], None), L1, t, (
            "trace", {}, [L1, ("event", {}, [L1, BADINT], None)], None)]
    if kind == "nested":
        return [t, ("trace", {}, [("string", {"key": "o", "value": "p"}, [("list", {"key": "l"}, [L1, BADINT], None)], None)], None)]
    if kind == "global":
        return [("global", {"scope": "event"}, [L1, ("string", {"key": "o", "value": "p"}, [("id", {"key": "i", "value": "no"}, [], None)], None)], None)]
    if kind == "invalid":
        return [("date", {"key": "d", "value": "no"}, [L1, ("list", {"key": "l"}, [L1], None)], None), t, ("float", {"key": "f", "value": "1,5"}, [], None)]
    if kind == "date":  # readable, but leaves something out
        return [("date", {"key": "d", "value": "no"}, [L1], None), t]
    if kind == "scope":
        return [L1, ("global", {"scope": "trace"}, [L1], None), t, ("global", {}, [], None)]
    return [("event", {}, [L1], None)]


def bad_mxml(kind):
    ent = ("AuditTrailEntry", {}, [("WorkflowModelElement", {"modelReference": "m"}, [], "n"), ("Timestamp", {}, [], "2020-02-29T10:00:07Z")], None)
    src = ("Source", {"program": "old"}, [("Data", {}, [("Attribute", {"name": "k"}, [], "v")], None)], None)
    if kind == "event":
        return [src, ("Process", {"id": "old"}, [("ProcessInstance", {"id": "o"}, [ent, ent], None)], None), ("Process", {"id": "old2"}, [ent], None)]
    if kind == "nested":
        return [src, ("Process", {"id": "old"}, [("ProcessInstance", {"id": "o"}, [ent, ("EventType", {"unknownType": "z"}, [], "left over")], None)], None)]
    if kind == "global":
        return [src, ("Process", {"id": "old"}, [("ProcessInstance", {"id": "o"}, [ent, ("Data", {}, [("Attribute", {}, [], "left over")], None)], None)], None)]
    if kind == "invalid":
        return [("Process", {"id": "old"}, [("ProcessInstance", {"id": "o"}, [("AuditTrailEntry", {}, [("Timestamp", {}, [], "no"), ("Originator", {}, [], "who")], None), (
            "WorkflowModelElement", {}, [], "left over")], None)], None)]
    if kind == "date":
        return [("Process", {"id": "old"}, [("ProcessInstance", {"id": "o"}, [("AuditTrailEntry", {}, [("Timestamp", {}, [], "no")], None)], None)], None)]
    if kind == "scope":
        return [src, ("ProcessInstance", {"id": "o"}, [ent], None)]
    return [src, ent]


BADS = ["event", "nested", "global", "invalid", "date", "scope", "place"]


def failing(sx, fmt, gz, how, n, kb, bads):
    """Reading after documents that cannot be read."""
    parser, new = parsers(sx, fmt, gz, how)
    env = environment(sx)
    pb = put_file(sx, tree(sx, fmt, "b", kb, (0, 1)), "b." + fmt + (".gz" if gz else ""), gz)
    ref = read(sx, new(), pb)
    for i in range(n):
        bad = sx.choice("bad%d" % i, bads)
        t = ("log", {"xes.version": "9"}, bad_xes(bad), None) if fmt == "xes" else ("WorkflowLog", {}, bad_mxml(bad), None)
        p = put_file(sx, t, "x%d." % i + fmt + (".gz" if gz else ""), gz)
        try:
            with sx.open(p, "r") as f:
                parser.parse(f)
        except Exception:
            pass
    b = read(sx, parser, pb)
    same_log(sx, ref, b, "read after a document that cannot be read")
    apart(sx, [ref, b], "readings")
    check_environment(sx, env, "after reading")


NEAR = {
    "literal": [(t, t) for t in ("ab", "aB", "ab ", "ab c", "abc", "")],
    "discrete": [("12", 12), ("-12", -12), ("012", 12), ("120", 120), ("+2", 2)],
    "continuous": [("1", 1.0), ("1.0", 1.0), ("1.00000001", 1.00000001), ("-1.0", -1.0), ("1.0e1", 10.0)],
    "boolean": [("true", True), ("false", False), ("TRUE", True), ("False", False)],
    "timestamp": [(t + z, (us, off)) for t, us in (("2020-02-29T01:02:03", 0), ("2020-02-29T01:02:03.25", 250000), ("2020-02-29T01:02:03.000250", 250)) for z, off in (
        ("", 0), ("Z", 0), ("+01:00", 60), ("-01:00", -60))],
    "id": [(t, t.lower()) for t in ("00000000-0000-4000-8000-0000000000ab", "00000000-0000-4000-8000-0000000000AB", "00000000-0000-4000-8000-0000000000ba",
                                    "00000000-0000-4000-9000-0000000000ab")]}


def near(sx, name, kind, first=None):
    """(text, value) of the kind; the values of a kind resemble each other."""
    t, v = NEAR[kind][first] if first is not None else sx.choice(name, NEAR[kind])
    if kind == "timestamp":
        us, off = v
        return t, sx.mk_datetime(2020, 2, 29, 1, 2, 3, us, tz=sx.mk_zone(off))
    return t, v


def same_value(sx, a, kind, v, what):
    sx.check(type(a) is cls(sx, kind), what + ": kind")
    g = a.get_value()
    if kind == "timestamp":
        sx.check(g == v, what + ": instant")
        sx.check(g.utcoffset() == v.utcoffset(), what + ": offset")
    elif kind == "id":
        sx.check(str(g).lower() == v, what + ": identifier")
    else:
        sx.check(g == v, what + ": value")


def alike(sx, kind, how, gz, first):
    """Documents with values that resemble each other, one after the other: each has its own."""
    parser, new = parsers(sx, "xes", gz, how)
    for i in range(3):
        key = sx.choice("key%d" % i, ["time:k", "Time:k", "time:K"]) if i == 1 else "time:k"
        (t, v), (u, w), (x, y) = [near(sx, "%s%d" % (n, i), kind, (first + j) % len(NEAR[kind]) if i != 1 or j else None) for j, n in enumerate("tux")]
        tag = {"literal": "string", "discrete": "int", "continuous": "float", "boolean": "boolean", "timestamp": "date", "id": "id"}[kind]
        nested = [(tag, {"key": key, "value": u}, [], None)]
        tree = ("log", {}, [(tag, {"key": key, "value": t}, nested, None), ("trace", {}, [(tag, {"key": key, "value": u}, [], None), (
            "event", {}, [(tag, {"key": key, "value": x}, [], None), ("list", {"key": "l"}, [(tag, {"key": key, "value": t}, [], None)], None)], None)], None)], None)
        log = read(sx, parser, put_file(sx, tree, "d%d.xes" % i + (".gz" if gz else ""), gz))
        ext = sx.C("extension.XExtensionManager")().get_by_prefix("time") if key[:4] == "time" else None
        sx.check(len(log) == 1 and len(log[0]) == 1, "structure")
        ev = log[0][0]
        for el, val, n in ((log, v, 1), (log.get_attributes()[key], w, 1), (log[0], w, 1), (ev, y, 2)):
            m = el.get_attributes()
            sx.check(len(m) == n and key in m, "the key of this document")
            same_value(sx, m[key], kind, val, "value of this document")
            sx.check(m[key].get_extension() is ext, "the extension of the key")
        c = list(ev.get_attributes()["l"].get_collection())
        sx.check(len(c) == 1, "contents")
        same_value(sx, c[0], kind, v, "content of this document")


WORDS = ["act", "Act", "act ", " a ct", "ac", "act 1"]


def alike_mxml(sx, how, gz, field):
    """The same for the texts of MXML documents."""
    parser, new = parsers(sx, "mxml", gz, how)
    for i in range(3):
        d = Doc(sx)
        w = {n: WORDS[0] for n in ("name", "type", "orig", "id", "key", "val", "ref")}
        z = NEAR["timestamp"][0]
        if i != 2:
            if field == "ts":
                z = sx.choice("z%d" % i, NEAR["timestamp"])
            else:
                w[field] = sx.choice("w%d" % i, WORDS)
        ts = (z[0], sx.mk_datetime(2020, 2, 29, 1, 2, 3, z[1][0], tz=sx.mk_zone(z[1][1])))
        e = entry(d, w["name"], w["type"], orig=w["orig"], ts=ts, data=[(w["key"], w["val"], w["ref"])], ref=w["ref"])
        g = entry(d, WORDS[(i + 1) % 6], "start", orig="act", ts=(NEAR["timestamp"][1][0], sx.mk_datetime(2020, 2, 29, 1, 2, 3, 0, tz=sx.mk_zone(0))))
        process(d, [instance(d, [e, g], w["id"], w["val"], [(w["key"], w["name"], None)]), instance(d, [g], "act")], w["id"], None, [(w["key"], w["val"], None)])

        def reading(d=d, i=i):
            p = put_file(sx, d.el("WorkflowLog", {}, d.kids), "d%d.mxml" % i + (".gz" if gz else ""), gz)
            with sx.open(p, "r") as f:
                return parser.parse(f)
        d.read = reading
        verify(sx, d)


LEVELS = ["log", "trace", "event", "gt", "ge"]
WHAT = ["all", "unknown", "time", "originator", "data"]


def scenarios(tier):
    q = tier == "quick"
    lens = (0, 1, 2) if q else (0, 1, 2, 3, 4)
    hows = ["own", "universal", "registered"]
    r = []
    n = 0

    def add(name, fn):
        r.append((name, fn))
    for i, k in enumerate(KINDS):
        for j, lv in enumerate(LEVELS):
            n += 1
            gz, how = (i + j) % 2, hows[n % 3]
            ka = (k, lv, ["", "concept:", "time:", "org:"][n % 4])
            kb = (KINDS[(i + 3) % 8], LEVELS[(j + 1) % 5], "")
            add("again-xes-%s-%s" % (k, lv), lambda sx, a=(gz, how, ka, kb): again(sx, "xes", *a, lens))
            if (i + j) % 3 == 0:
                add("over-xes-%s-%s" % (k, lv), lambda sx, a=(1 - gz, how if how == "universal" else "own", ka, kb): overwritten(sx, "xes", *a, lens))
    for i, w in enumerate(WHAT):
        for j in range(3):
            add("again-mxml-%s-%d" % (w, j), lambda sx, a=(j % 2, hows[j], w, WHAT[(i + j + 1) % 5]): again(sx, "mxml", *a, lens))
        add("over-mxml-%s" % w, lambda sx, a=(i % 2, hows[i % 2], w, WHAT[(i + 1) % 5]): overwritten(sx, "mxml", *a, lens))
    r.reverse()
    for fmt in ("xes", "mxml"):
        for j, how in enumerate(hows):
            for gz in (0, 1):
                kb = ("literal", LEVELS[(j + gz) % 5], "") if fmt == "xes" else WHAT[(j + gz) % 5]
                add("bad-%s-%s-%d" % (fmt, how, gz), lambda sx, a=(fmt, gz, how, 1 if q else 2, kb): failing(sx, *a, BADS))
    r.reverse()
    for i, k in enumerate(NEAR):
        for j in range(len(NEAR[k])):
            add("alike-%s-%d" % (k, j), lambda sx, k=k, a=(hows[(i + j) % 3], (i + j) % 2, j): alike(sx, k, *a))
    for i, f in enumerate(["name", "type", "orig", "id", "key", "val", "ref", "ts"]):
        add("alike-mxml-" + f, lambda sx, f=f, i=i: alike_mxml(sx, hows[i % 3], i % 2, f))
    for i, how in enumerate(hows):
        add("big-" + how, lambda sx, i=i, how=how: big(sx, i % 2, how))
    return r
