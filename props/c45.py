"""C45: a written MXML document has the structure of the format."""
from props.common import KINDS, COLLECTIONS, attr, cls, put, factory, write_log, large_log
BOUNDS = {"quick": "logs of up to 3 traces of up to 3 events; every combination of name, transition, resource, role, group, timestamp and model references on one event, "
                   "texts of length 0 to 3; every kind of attribute on every level with keys of length 1 to 2, nested to depth 3; text and bytes, plain and compressed; a log of 130 traces, 270 events in one of them, 110 attributes and 30 levels",
          "thorough": "texts of length 0 to 5, 4 traces of up to 4 events"}
OUTSIDE = "the characters of the file (the XML libraries are modelled at the level of the infoset); carriage returns, and control white space in keys, transitions and references (C38); attributes of names, transitions and resources that are not texts"
ASSUMES = ["ElementTree, minidom and expat behave as modelled in symx/xmlstub.py (checked on witnesses at every run)"]
KNOWN = ["schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete", "autoskip", "manualskip"]
REF = "semantic:modelReference"


def get(node, k):
    r = [v for n, v in node[1] if n.lower() == k.lower()]
    return r[0] if len(r) == 1 else None


def named(node, tag):
    return [n for n in node[3] if n[0].lower() == tag]


def flat(attributes, prefix=""):
    r = []
    for a in attributes:
        if a.get_key() != REF:
            r.append((prefix + a.get_key(), a))
            r += flat(list(a.get_attributes().values()), prefix + a.get_key() + ":")
    return r


def text_of(el, key):
    a = el.get_attributes().get(key)
    return None if a is None else a.get_value()


def reference(sx, el, node, what):
    sx.check(get(node, "modelReference") == text_of(el, REF), what + ": model reference")


def data(sx, el, node, what):
    """The Data element holds one attribute element per attribute, nested ones with the joined key."""
    d = named(node, "data")
    sx.check(len(d) == 1 and node[3][0][0].lower() == "data", what + ": data come first")
    exp = flat(list(el.get_attributes().values()))
    sx.check(len(d[0][3]) == len(exp), what + ": one element per attribute")
    for (k, a), n in zip(exp, d[0][3]):
        sx.check(n[0].lower() == "attribute", what + ": element of an attribute")
        sx.check(get(n, "name") == k, what + ": name of an attribute")
        sx.check(n[2] == str(a), what + ": text of an attribute")
        sx.check(n[3] == [], what + ": nothing in an attribute")
        reference(sx, a, n, what + " attribute")


def entry(sx, e, n):
    sx.check(n[0].lower() == "audittrailentry", "element of an event")
    data(sx, e, n, "event")
    w, t, o, s = named(n, "workflowmodelelement"), named(n, "eventtype"), named(n, "originator"), named(n, "timestamp")
    m = e.get_attributes()
    sx.check(len(n[3]) == 1 + len(w) + len(t) + len(o) + len(s), "known elements only")
    sx.check(len(w) == 1 and len(t) == 1, "one name and one type")
    name = text_of(e, "concept:name")
    sx.check(w[0][2] == ("" if name is None else name), "name of the event")
    reference(sx, e, w[0], "event")
    if "lifecycle:transition" in m:
        v = m["lifecycle:transition"].get_value()
        low = v.strip().lower()
        if low in KNOWN:
            sx.check(t[0][2] == low, "standard type")
            sx.check(get(t[0], "unknownType") is None, "not unknown")
        else:
            sx.check(t[0][2] == "unknown", "unknown type")
            sx.check(get(t[0], "unknownType") == v, "name of the unknown type")
        reference(sx, m["lifecycle:transition"], t[0], "type")
    else:
        sx.check(t[0][2] == "complete", "default type")
    src = [k for k in ("org:resource", "org:role", "org:group") if k in m][:1]
    sx.check(len(o) == len(src), "originator")
    for k in src:
        sx.check(o[0][2] == m[k].get_value(), "text of the originator")
        reference(sx, m[k], o[0], "originator")
    sx.check(len(s) == (1 if "time:timestamp" in m else 0), "timestamp")
    for x in s:
        sx.check(x[2] == str(m["time:timestamp"]), "text of the timestamp")
        reference(sx, m["time:timestamp"], x, "timestamp")


def document(sx, log, doc):
    sx.check(doc[0].lower() == "workflowlog", "root element")
    p = named(doc, "process")
    sx.check(len(p) == 1 and len(named(doc, "source")) == 1 and len(doc[3]) == 2, "source and process")
    p = p[0]
    data(sx, log, p, "log")
    reference(sx, log, p, "log")
    name = text_of(log, "concept:name")
    if name is not None:
        sx.check(get(p, "id") == name, "id of the process")
        sx.check(get(p, "description") == "process with id " + name, "description of the process")
    ti = p[3][1:]
    sx.check(len(ti) == len(log), "one instance per trace")
    for t, n in zip(log, ti):
        sx.check(n[0].lower() == "processinstance", "element of a trace")
        data(sx, t, n, "trace")
        reference(sx, t, n, "trace")
        name = text_of(t, "concept:name")
        if name is not None:
            sx.check(get(n, "id") == name, "id of the instance")
            sx.check(get(n, "description") == "instance with id " + name, "description of the instance")
        sx.check(len(n[3]) == 1 + len(t), "one entry per event")
        for e, m in zip(t, n[3][1:]):
            entry(sx, e, m)


def write(sx, log, mode):
    if mode == "gz":
        p = write_log(sx, log, "a.mxml.gz", "data_out.XMxmlGZIPSerializer")
        sx.gunzip(p, sx.path("b.mxml"))
        return sx.read_xml(sx.path("b.mxml"))
    return sx.read_xml(write_log(sx, log, "a.mxml", "data_out.XMxmlSerializer", in_bytes={"text": None, "bytes": True}[mode]))


def lit(sx, key, v):
    return cls(sx, "literal")(key, v)


def base(sx):
    f = factory(sx)
    log, t, e = f.create_log(), f.create_trace(), f.create_event()
    log.append(t)
    t.append(e)
    return log, t, e


def event(sx, which, L):
    """Standard values of an event, present or missing."""
    log, t, e = base(sx)
    for k in ("concept:name", "org:resource", "org:role", "org:group"):
        if sx.choice("has " + k, [0, 1]):
            put(e, lit(sx, k, sx.str(k, [0, L] if k in ("concept:name", which) else [1])))
            if k == which:
                put(e.get_attributes()[k], lit(sx, REF, sx.str("ref", [2])))
    tr = sx.choice("transition", [0, 1, 2])
    if tr:
        put(e, lit(sx, "lifecycle:transition", sx.str("tr", [0, L]) if tr == 1 else " Start"))
    if sx.choice("has time", [0, 1]):
        put(e, attr(sx, "time", "timestamp", "time:timestamp", small=True))
        if which == "time":
            put(e.get_attributes()["time:timestamp"], lit(sx, REF, sx.str("ref", [1])))
    if which == "self":
        put(e, lit(sx, REF, sx.str("ref", [2])))
    document(sx, log, write(sx, log, "text"))


def transition(sx, word):
    """Every spelling of a standard transition."""
    log, t, e = base(sx)
    v = "".join(c.upper() if sx.choice("up%d" % i, [0, 1]) else c for i, c in enumerate(word[:3])) + word[3:]
    v = sx.choice("before", ["", " ", "\u00a0"]) + v + sx.choice("after", ["", " ", "x"])
    a = lit(sx, "lifecycle:transition", v)
    if sx.choice("ref", [0, 1]):
        put(a, lit(sx, REF, sx.str("r", [1])))
    put(e, a)
    document(sx, log, write(sx, log, "text"))


def tree(sx, name, kind, depth):
    a = attr(sx, name, kind, sx.str("k" + name, [1, 2], extra=False) if name == "v" else "k" + name, small=depth != 3 or kind == "discrete")
    if depth:
        for i in range(2):
            k = KINDS[(KINDS.index(kind) + 1 + 3 * i) % 8]
            put(a, tree(sx, "%s%d" % (name, i), k, depth - 1 if i == 0 else 0))
        put(a, lit(sx, REF, sx.str(name + "r", [1])))
    if kind in COLLECTIONS:
        a.add_to_collection(attr(sx, name + "c", "discrete", "c", small=True))
    return a


def attributes(sx, kind, depth, mode):
    log, t, e = base(sx)
    el = [log, t, e][sx.choice("level", [0, 1, 2])]
    put(el, attr(sx, "before", "literal", "before", small=True))
    put(el, tree(sx, "v", kind, depth))
    put(el, attr(sx, "after", "discrete", "after", small=True))
    document(sx, log, write(sx, log, mode))


def structure(sx, ntr, nev, L):
    f = factory(sx)
    log = f.create_log()
    if sx.choice("has name", [0, 1]):
        put(log, lit(sx, "concept:name", sx.str("ln", [0, 1, L])))
        put(log, lit(sx, REF, sx.str("lr", [1])))
    for i in range(sx.choice("traces", range(ntr + 1))):
        t = f.create_trace()
        log.append(t)
        if sx.choice("has tn%d" % i, [0, 1]):
            put(t, lit(sx, "concept:name", sx.str("tn%d" % i, [1])))
            put(t, lit(sx, REF, sx.str("tr%d" % i, [1])))
        for j in range(sx.choice("events%d" % i, range(nev + 1))):
            e = f.create_event()
            t.append(e)
            if (i + j) % 2:
                put(e, lit(sx, "concept:name", sx.str("en%d.%d" % (i, j), [1])))
    document(sx, log, write(sx, log, "text"))


def large(sx, mode):
    log = large_log(sx, chars="abcXYZ.<&")
    put(log, lit(sx, "concept:name", "the log"))
    document(sx, log, write(sx, log, mode))


def scenarios(tier):
    q = tier == "quick"
    r = [("structure", lambda sx: structure(sx, 3 if q else 4, 3 if q else 4, 3 if q else 5), {"weight": 3})]
    r += [("large-" + m, lambda sx, m=m: large(sx, m)) for m in ("text", "bytes", "gz")]
    for w in ("org:resource", "org:role", "org:group", "time", "self"):
        r.append(("event-" + w, lambda sx, w=w: event(sx, w, 3 if q else 5)))
    for w in ("start", "complete", "pi_abort", "autoskip") if q else KNOWN:
        r.append(("transition-" + w, lambda sx, w=w: transition(sx, w)))
    for i, k in enumerate(KINDS):
        r.append(("attributes-" + k, lambda sx, k=k: attributes(sx, k, 3, "text")))
        r.append(("attributes-other-" + k, lambda sx, k=k, i=i: attributes(sx, k, 0, ["gz", "bytes"][i % 2])))
    return r
