"""C38: MXML round trip."""
from props.common import cls, factory, put, attr, value, write_log, KINDS, VALUE_KINDS, COLLECTIONS, check_ms, large_log
BOUNDS = {"quick": "logs of up to 2 traces of up to 3 events; names, resources, roles, groups, transitions, references and text attributes of length 1 to 2, with any white space "
                   "around those that are element texts, and every standard transition; longer texts around one arbitrary character; each of the standard values present or missing on two events; timestamps of "
                   "every minute at four offsets; one more attribute of each kind on each element, with up to two nested ones; a log of 40 traces, 60 events in one of them, 40 attributes and 30 levels",
          "thorough": "texts of length 1 to 4; arbitrary instants"}
OUTSIDE = "blank values, the transition UNKNOWN, carriage returns inside texts and control white space in keys, transitions and references (the XML writer does not " \
          "escape them), keys that coincide after stripping or joining"
ASSUMES = ["ElementTree, minidom and xml.sax write and read documents as modelled in symx/xmlstub.py (checked on witnesses at every run)"]
KNOWN = ["schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete", "autoskip", "manualskip"]
STD = ("concept:name", "lifecycle:transition", "org:resource", "time:timestamp")
REF = "semantic:modelReference"


def lit(sx, k, v, ref=None):
    a = cls(sx, "literal")(k, v)
    if ref is not None:
        put(a, cls(sx, "literal")(REF, ref))
    return a


def ref_of(a):
    r = a.get_attributes().get(REF)
    return None if r is None else r.get_value()


def flat(sx, attributes, prefix=""):
    """What the attributes become: (key, text, reference)."""
    r = []
    for a in attributes:
        if a.get_key() == REF:
            continue
        t = str(a).strip() if isinstance(a, cls(sx, "literal")) else str(a)
        if len(t):
            r.append(((prefix + a.get_key()).strip(), t, ref_of(a)))
        r += flat(sx, a.get_attributes().values(), prefix + a.get_key() + ":")
    return r


def check_data(sx, el, got, skip, extra, what):
    m = got.get_attributes()
    exp = [x for x in flat(sx, el.get_attributes().values()) if x[0] not in skip]
    n = 0
    for k, t, r in exp:
        sx.check(k in m, what + ": attribute comes back")
        b = m[k]
        sx.check(type(b) is cls(sx, "literal") and b.get_key() == k, what + ": as a string attribute")
        sx.check(b.get_value() == t, what + ": text of the value")
        check_ref(sx, b, r, what + ", attribute")
    for k in extra:
        sx.check(k in m, what + ": " + k)
    check_ref(sx, got, ref_of(el), what, False)
    sx.check(len(m) == len(exp) + len([k for k in extra if not any(k == e[0] for e in exp)]) + (ref_of(el) is not None), what + ": nothing else")


def check_ref(sx, b, r, what, only=True):
    m = b.get_attributes()
    if r is None:
        sx.check(REF not in m, what + ": no model reference")
    else:
        sx.check(REF in m and m[REF].get_value() == r, what + ": model reference")
    if only:
        sx.check(len(m) == (r is not None), what + ": nothing nested")


def check_event(sx, e, g):
    m, n = e.get_attributes(), g.get_attributes()
    extra = ["lifecycle:transition"]
    if "concept:name" in m:
        extra.append("concept:name")
        sx.check("concept:name" in n and n["concept:name"].get_value() == m["concept:name"].get_value().strip(), "name of the event")
        sx.check(type(n["concept:name"]) is cls(sx, "literal"), "kind of the name")
    else:
        sx.check("concept:name" not in n, "no name")
    t = n.get("lifecycle:transition")
    if "lifecycle:transition" in m:
        v = m["lifecycle:transition"].get_value()
        if v.strip().lower() in KNOWN:
            v = v.strip().lower()
        sx.check(t is not None and t.get_value() == v, "transition")
        check_ref(sx, t, ref_of(m["lifecycle:transition"]), "transition")
    else:
        sx.check(t is not None and t.get_value() == "complete", "complete without transition")
    o = [m[k] for k in ("org:resource", "org:role", "org:group") if k in m]
    if o:
        extra.append("org:resource")
        r = n.get("org:resource")
        sx.check(r is not None and r.get_value() == o[0].get_value().strip(), "resource")
        check_ref(sx, r, ref_of(o[0]), "resource")
    else:
        sx.check("org:resource" not in n, "no resource")
    if "time:timestamp" in m:
        extra.append("time:timestamp")
        a, b = m["time:timestamp"], n.get("time:timestamp")
        sx.check(b is not None and type(b) is cls(sx, "timestamp"), "timestamp")
        check_ms(sx, a.get_value(), b.get_value(), "instant")
        sx.check(a.get_value().utcoffset() == b.get_value().utcoffset(), "offset")
    else:
        sx.check("time:timestamp" not in n, "no timestamp")
    check_data(sx, e, g, [k for k in STD if k in m] + (["org:resource"] if o else []), extra, "event")


def verify(sx, log, in_bytes=None):
    p = write_log(sx, log, "log.mxml", "data_out.XMxmlSerializer", in_bytes)
    logs = sx.C("data_in.XMxmlParser")().parse(p)
    sx.check(len(logs) == 1, "one log")
    got = logs[0]
    check_data(sx, log, got, [], ["source", "concept:name", "lifecycle:model", "description"], "log")
    traces = [t for t in log if len(t)]
    sx.check(len(got) == len(traces), "traces with events")
    for t, u in zip(traces, got):
        check_data(sx, t, u, [], ["concept:name", "description"], "trace")
        sx.check(len(t) == len(u), "events of the trace")
        for e, g in zip(t, u):
            check_event(sx, e, g)


def event(sx, i="", **kw):
    e = factory(sx).create_event()
    put(e, *[lit(sx, k, v) for k, v in (("concept:name", "act" + i), ("lifecycle:transition", "start"))])
    return e


def frame(sx, events, trace="case"):
    f = factory(sx)
    log, t = f.create_log(), f.create_trace()
    put(log, lit(sx, "concept:name", "the log"))
    put(t, lit(sx, "concept:name", trace))
    for e in events:
        t.append(e)
    log.append(t)
    return log


def txt(sx, name, lens, ws):
    v = sx.str(name, lens, ws=ws)
    sx.assume(len(v.strip()) > 0)
    if ws:
        w = v.strip()
        for c in w:
            sx.assume(c != "\r")
    return v


def names(sx, level, lens):
    v = txt(sx, "v", lens, level == "event")
    log = frame(sx, [event(sx, "0"), event(sx, "1")])
    el = {"log": log, "trace": log[0], "event": log[0][1]}[level]
    put(el, lit(sx, "concept:name", v))
    if sx.choice("ref", [1, 0]):
        put(el, lit(sx, REF, sx.str("r", [1, 2])))
    verify(sx, log)


def transition(sx, lens, std):
    e = event(sx)
    v = sx.choice("v", std) if std else txt(sx, "v", lens, False)
    put(e, lit(sx, "lifecycle:transition", v, sx.choice("ref", [None, "x y"])))
    verify(sx, frame(sx, [event(sx, "0"), e, event(sx, "1")]))


def originators(sx, lens, has):
    e = event(sx)
    for i, k in enumerate(("resource", "role", "group")):
        if has[i]:
            put(e, lit(sx, "org:" + k, txt(sx, k, lens, True) if i == has.index(1) else "other " + k, sx.choice("ref" + k, [None, "x"])))
    verify(sx, frame(sx, [event(sx, "0"), e, event(sx, "1")]))


def time(sx, off, full):
    e = event(sx)
    v = sx.datetime("v", off_fixed=off) if full else sx.datetime("v", fields=True, narrow=True, off_fixed=off)
    put(e, cls(sx, "timestamp")("time:timestamp", v))
    verify(sx, frame(sx, [event(sx, "0"), e, event(sx, "1")]))


def optional(sx):
    es = []
    for i in range(2):
        e = factory(sx).create_event()
        for k, v in (("concept:name", "act%d"), ("lifecycle:transition", "type%d"), ("org:resource", "who%d"), ("org:role", "role%d")):
            if sx.choice("%s%d" % (k, i), [1, 0]):
                put(e, lit(sx, k, v % i))
        if sx.choice("time%d" % i, [1, 0]):
            put(e, cls(sx, "timestamp")("time:timestamp", sx.mk_datetime(2020, 1, 2 - i, 3, 4, 5, 678000, tz=sx.mk_zone(-90))))
        es.append(e)
    verify(sx, frame(sx, es))


def other(sx, level, kind, lens):
    log = frame(sx, [event(sx, "0"), event(sx, "1")])
    el = {"log": log, "trace": log[0], "event": log[0][0]}[level]
    k = "k" + sx.str("key", [0, 1])
    if kind == "literal":
        a = lit(sx, k, txt(sx, "v", lens, True))
    elif kind == "continuous":
        a = cls(sx, kind)(k, sx.choice("v", [0.0, -1.5, 1e300, float("inf")]))
    elif kind in COLLECTIONS:
        a = cls(sx, kind)(k)
        for i in range(sx.choice("n", [0, 1, 2])):
            a.add_to_collection(lit(sx, "c%d" % i, sx.str("c%d" % i, [1])))
    else:
        a = attr(sx, "v", kind, k, small=True)
    if sx.choice("nested", [1, 0]):
        put(a, lit(sx, "n", "nested", sx.choice("nref", [None, "q"])), cls(sx, "discrete")("m", 3))
        put(a.get_attributes()["m"], cls(sx, "boolean")("o", sx.bool("o")))
    if sx.choice("ref", [1, 0]):
        put(a, lit(sx, REF, sx.str("r", [1])))
    put(el, lit(sx, "a", " before"), a, cls(sx, "discrete")("z", 7))
    verify(sx, log)


def shape(sx, ntr, in_bytes):
    f = factory(sx)
    log = f.create_log()
    v = sx.str("v", [1], chars="abcXYZ.<&")
    if sx.choice("named", [1, 0]):
        put(log, lit(sx, "concept:name", "log" + v))
    for i, n in enumerate(ntr):
        t = f.create_trace()
        if sx.choice("named%d" % i, [1, 0]):
            put(t, lit(sx, "concept:name", "case%d" % i + v))
        for j in range(n):
            e = event(sx, "%d.%d" % (i, j) + v)
            put(e, cls(sx, "discrete")("nr", 10 * i + j))
            t.append(e)
        log.append(t)
    verify(sx, log, in_bytes)


LONG = ["ALL UPPER %s CASE", "A quite long, Mixed %s text  with two blanks: and (signs) & <more>", "%s 12", "unknown%s", "http://www.example.org/x#%s y", "start %s"]


def long(sx, k):
    """Longer texts around one arbitrary character."""
    v = sx.choice("text", LONG).replace("%s", sx.str("c", [1], chars="abcXYZ 09._-/\u00e9\u4e2d"))
    log = frame(sx, [event(sx, "0"), event(sx, "1"), event(sx, "2")])
    e = log[0][1]
    if k in ("log", "trace"):
        put({"log": log, "trace": log[0]}[k], lit(sx, "concept:name", v.strip()))
    else:
        put(e, lit(sx, k, v.strip() if k == "lifecycle:transition" else v))
    verify(sx, log)


def large(sx, in_bytes):
    log = large_log(sx, traces=40, events=60, attrs=40, items=40, chars="abcXYZ.<&", empty=in_bytes is None)
    a = lit(sx, "level7", "innermost")
    for i in range(7):
        b = cls(sx, "discrete")("level%d" % (6 - i), i)
        put(b, a)
        a = b
    put(log[-1], a)
    put(log, lit(sx, "concept:name", "the log"))
    verify(sx, log, in_bytes)


def scenarios(tier):
    q = tier == "quick"
    L = [1, 2] if q else [1, 2, 3, 4]
    r = [("name-" + l, lambda sx, l=l: names(sx, l, L)) for l in ("log", "trace", "event")]
    r += [("transition", lambda sx: transition(sx, L, None)), ("transition-std", lambda sx: transition(sx, L, KNOWN)),
          ("transition-spelled", lambda sx: transition(sx, L, [" Start\u00a0", "COMPLETE", "Pi_Abort ", "started", "pi abort"]))]
    for h in range(1, 8):
        has = [h & 1, h >> 1 & 1, h >> 2]
        r.append(("originator-%d%d%d" % tuple(has), lambda sx, has=has: originators(sx, L, has)))
    r += [("long-" + k, lambda sx, k=k: long(sx, k)) for k in ("log", "trace", "concept:name", "lifecycle:transition", "org:resource", "org:role", "org:group", "other")]
    r += [("large-%s" % b, lambda sx, b=b: large(sx, b)) for b in (None, True)]
    for o in (0, 90, -210, 840) if q else (0, 1, 90, -1, -210, 840, -840, 1439):
        r.append(("time%d" % o, lambda sx, o=o: time(sx, o, not q)))
    r.append(("optional", optional))
    for l in ("log", "trace", "event"):
        for k in KINDS:
            r.append(("other-%s-%s" % (l, k), lambda sx, l=l, k=k: other(sx, l, k, [1, 2] if q else [1, 2, 3])))
    for s in [(), (0,), (1,), (3,), (0, 2), (2, 1), (1, 0, 2)]:
        for b in (None, True, False):
            r.append(("shape-%s-%s" % ("".join(map(str, s)) or "none", b), lambda sx, s=s, b=b: shape(sx, s, b)))
    return r
