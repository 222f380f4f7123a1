"""C28: the MXML reader."""
from props.common import cls
BOUNDS = {"quick": "documents with up to 2 processes, 3 instances and 3 entries; every optional part present or missing; texts of length 0 to 2 with any white space around, "
                   "and of 80 characters around one arbitrary character; up to 2 data attributes on source, process, instance and entry; tags in three case variants; valid and invalid timestamps; large documents (12 processes, 14 entries)",
          "thorough": "texts of length 0 to 4"}
OUTSIDE = "elements out of place, data attributes without name, an empty originator element, the value UNKNOWN as event type"
ASSUMES = ["xml.sax reports documents as modelled in symx/xmlstub.py (checked on witnesses at every run)"]
CASES = {"std": lambda s: s, "lower": str.lower, "upper": str.upper}


def strip(s):
    return s.strip()


class Doc:
    """Builds a document and what is expected of it side by side."""

    def __init__(self, sx, case="std"):
        self.sx, self.case = sx, CASES[case]
        self.kids, self.exp, self.source = [], [], None

    def el(self, tag, attrs=None, kids=(), text=None):
        return (self.case(tag), dict(attrs or {}), list(kids), text)

    def data(self, atts):
        """atts: (name, text, model reference or None)"""
        return [self.el("Data", {}, [self.el("Attribute", dict({"name": n}, **({"modelReference": m} if m else {})), [], t)
                                     for n, t, m in atts])] if atts else []

    def read(self):
        sx = self.sx
        p = sx.path("log.mxml")
        sx.write_xml(p, self.el("WorkflowLog", {}, self.kids))
        return sx.C("data_in.XMxmlParser")().parse(p)


def check_atts(sx, el, exp, what):
    """exp: list of (key, kind, value, reference)"""
    m = el.get_attributes()
    sx.check(len(m) == len(exp), what + ": number of attributes")
    for k, kind, v, ref in exp:
        sx.check(k in m, what + ": attribute " + str(k))
        a = m[k]
        sx.check(type(a) is cls(sx, kind) and a.get_key() == k, what + ": kind of " + str(k))
        sx.check(a.get_value() == v, what + ": value of " + str(k))
        if kind == "timestamp":
            sx.check(a.get_value().utcoffset() == v.utcoffset(), what + ": offset")
        n = a.get_attributes()
        if ref is None:
            sx.check(len(n) == 0, what + ": nothing nested in " + str(k))
        else:
            sx.check(len(n) == 1 and n["semantic:modelReference"].get_value() == ref, what + ": model reference of " + str(k))


def data_exp(atts):
    return [(n.strip(), "literal", t.strip(), m) for n, t, m in atts if len(t.strip())]


def stamp(sx, name):
    h, m, z = sx.int(name + "h", 0, 23), sx.int(name + "m", 0, 59), sx.choice(name + "z", ["Z", "+02:00", "-03:30"])
    return "2020-02-29T%02d:%02d:07.125%s" % (h, m, z), sx.mk_datetime(2020, 2, 29, h, m, 7, 125000,
                                                                       tz=sx.mk_zone({"Z": 0, "+02:00": 120, "-03:30": -210}[z]))


def txt(sx, name, lens=(0, 1, 2)):
    return sx.str(name, list(lens), ws=True)


def entry(d, name=None, etype=None, unknown=None, orig=None, ts=None, data=(), ref=None, eref=None, oref=None):
    """Element and expected attributes of an entry; ts: (text, value)."""
    kids, exp = d.data(data), data_exp(data)
    if name is not None:
        kids.append(d.el("WorkflowModelElement", {"modelReference": ref} if ref else {}, [], name))
        if ref:
            exp.append(("semantic:modelReference", "literal", ref, None))
        if len(name.strip()):
            exp.append(("concept:name", "literal", name.strip(), None))
    if etype is not None or unknown is not None:
        at = {"unknownType": unknown} if unknown is not None else {}
        if eref:
            at["modelReference"] = eref
        kids.append(d.el("EventType", at, [], etype))
        v = unknown if unknown else (etype or "").strip()
        if len(v):
            exp.append(("lifecycle:transition", "literal", v, eref))
    if ts is not None:
        kids.append(d.el("Timestamp", {}, [], ts[0]))
        if ts[1] is not None:
            exp.append(("time:timestamp", "timestamp", ts[1], None))
    if orig is not None:
        kids.append(d.el("Originator", {"modelReference": oref} if oref else {}, [], orig))
        exp.append(("org:resource", "literal", orig.strip(), oref))
    return d.el("AuditTrailEntry", {}, kids), exp


def instance(d, entries, id=None, desc=None, data=(), ref=None):
    at, exp = {}, []
    if id is not None:
        at["id"] = id
    n = "None" if id is None else id
    if len(n.strip()):
        exp.append(("concept:name", "literal", n, None))
    if desc is not None:
        at["description"] = desc
        if len(desc.strip()):
            exp.append(("description", "literal", desc, None))
    if ref:
        at["modelReference"] = ref
        exp.append(("semantic:modelReference", "literal", ref, None))
    return d.el("ProcessInstance", at, d.data(data) + [e for e, _ in entries]), (exp + data_exp(data), [x for _, x in entries])


def process(d, instances, id=None, desc=None, data=(), ref=None, source=None):
    at, exp = {}, [("lifecycle:model", "literal", "standard", None)]
    if id is not None:
        at["id"] = id
        if len(id.strip()):
            exp.append(("concept:name", "literal", id, None))
    if desc is not None:
        at["description"] = desc
        if len(desc):
            exp.append(("description", "literal", desc, None))
    if ref:
        at["modelReference"] = ref
        exp.append(("semantic:modelReference", "literal", ref, None))
    d.kids.append(d.el("Process", at, d.data(data) + [i for i, _ in instances]))
    d.exp.append((exp + data_exp(data), [x for _, x in instances]))


def verify(sx, d, source=None):
    logs = list(d.read())
    sx.check(len(logs) == len(d.exp), "one log per process")
    for log, (exp, insts) in zip(logs, d.exp):
        m = log.get_attributes()
        if source is not None:
            sx.check("source" in m and m["source"].get_value() == source[0], "source")
            check_atts(sx, m["source"], source[1], "source")
            rest = [(k, a) for k, a in m.items() if k != "source"]
        else:
            rest = list(m.items())
        sx.check(len(rest) == len(exp), "process: number of attributes")
        for k, kind, v, ref in exp:
            got = [a for key, a in rest if key == k]
            sx.check(len(got) == 1 and got[0].get_key() == k and got[0].get_value() == v, "process: attribute " + str(k))
            if ref:
                sx.check(got[0].get_attributes()["semantic:modelReference"].get_value() == ref, "process: reference of " + str(k))
        insts = [i for i in insts if i[1]]
        sx.check(len(log) == len(insts), "one trace per instance with entries")
        for t, (ie, ents) in zip(log, insts):
            check_atts(sx, t, ie, "instance")
            sx.check(len(t) == len(ents), "one event per entry")
            for e, ee in zip(t, ents):
                check_atts(sx, e, ee, "entry")
    return logs


def minimal(d, i=0):
    return entry(d, "act %d" % i, "start")


def entries(sx, field, case, lens, pad=None):
    """One entry with a symbolic field among fixed ones."""
    d = Doc(sx, case)
    kw = {}
    if pad:
        txt = lambda sx, name, lens: pad[0] + sx.str(name, [1], ws=True) + pad[1]
    else:
        txt = globals()["txt"]
    if field == "name":
        kw = dict(name=txt(sx, "v", lens), etype="start", ref=sx.choice("ref", [None, "http://a b"]))
    elif field == "type":
        kw = dict(name="n", etype=txt(sx, "v", lens), eref=sx.choice("ref", [None, "x"]))
        sx.assume(kw["etype"].strip() != "UNKNOWN")
    elif field == "unknown":
        kw = dict(name="n", etype=sx.choice("t", ["unknown", "", None]), unknown=sx.str("v", [1, 2]))
        sx.assume(kw["unknown"] != "UNKNOWN")
    elif field == "originator":
        kw = dict(name="n", etype="start", orig=txt(sx, "v", [k for k in lens if k]), oref=sx.choice("ref", [None, "x"]))
        sx.assume(len(kw["orig"].strip()) > 0)
    elif field == "timestamp":
        kw = dict(name="n", etype="start", ts=stamp(sx, "v"))
    elif field == "badtime":
        kw = dict(name="n", etype="start", ts=(sx.choice("v", ["", "yesterday", "2020-02-30T00:00:00Z"]), None), orig="who")
    else:
        k, v = sx.str("k", [1, 2]), txt(sx, "v", lens)
        sx.assume(len(k.strip()) > 0)
        for x in ("f", "g"):
            sx.assume(k.strip() != x)
        kw = dict(name="n", etype="start", data=[("f", "fixed", None), (k, v, sx.choice("ref", [None, "x"])), ("g", " fixed 2 ", "y z")])
    e = entry(d, **kw)
    process(d, [instance(d, [minimal(d, 0), e, minimal(d, 1)], "i1"), instance(d, [minimal(d, 2)], "i2")], "p")
    verify(sx, d)


def long(sx, field):
    entries(sx, field, "std", (1,), ("  Handle the request of the customer:\n ", " and file the answer \u00e9\u20ac <&> in the archive\t"))


def optional(sx):
    """Every part of an entry present or missing, twice in a row."""
    d = Doc(sx)
    es = []
    for i in range(2):
        n = "%d" % i
        kw = {}
        for k, v in (("name", "act" + n), ("etype", "start"), ("orig", "who" + n), ("ts", ("2020-01-01T00:00:0%sZ" % n, sx.mk_datetime(
                2020, 1, 1, 0, 0, i, tz=sx.mk_zone(0)))), ("data", [("d" + n, "v", None)])):
            if sx.choice(k + n, [1, 0]):
                kw[k] = v
        es.append(entry(d, **kw))
    process(d, [instance(d, es, "i1")], "p")
    verify(sx, d)


def inst(sx, what, lens):
    d = Doc(sx)
    kw = {"id": "i"}
    if what == "id":
        kw = {"id": txt(sx, "v", lens)} if sx.choice("has", [1, 0]) else {}
    elif what == "description":
        kw["desc"] = txt(sx, "v", lens)
    elif what == "ref":
        kw["ref"] = sx.str("v", [1, 2])
    else:
        k, v = sx.str("k", [1, 2]), txt(sx, "v", lens)
        sx.assume(len(k.strip()) > 0)
        kw["data"] = [(k, v, sx.choice("ref", [None, "x"]))]
    process(d, [instance(d, [minimal(d)], **kw), instance(d, [minimal(d, 1)], "j")], "p")
    verify(sx, d)


def proc(sx, what, lens):
    d = Doc(sx)
    kw = {"id": "p"}
    if what == "id":
        kw = {"id": txt(sx, "v", lens)} if sx.choice("has", [1, 0]) else {}
    elif what == "description":
        kw["desc"] = txt(sx, "v", lens)
    elif what == "ref":
        kw["ref"] = sx.str("v", [1, 2])
    else:
        k, v = sx.str("k", [1, 2]), txt(sx, "v", lens)
        sx.assume(len(k.strip()) > 0)
        kw["data"] = [(k, v, sx.choice("ref", [None, "x"]))]
    process(d, [instance(d, [minimal(d)], "i")], **kw)
    process(d, [instance(d, [minimal(d, 1)], "j")], "p2")
    verify(sx, d)


def parts(sx, what):
    """Every combination of the parts of an instance, a process or an entry, with a symbolic text in each."""
    d = Doc(sx)
    v = sx.str("v", [1], chars="abcXYZ<&_-")
    kw = {}
    for k, x in (("id", "i" + v), ("desc", "d" + v), ("ref", "r" + v)) if what != "entry" else (("name", "n" + v), ("etype", "t" + v), ("unknown", "u" + v), (
            "orig", "o" + v), ("ref", "r" + v), ("eref", "e" + v), ("oref", "f" + v)):
        if sx.choice(k, [1, 0]):
            kw[k] = x
    kw["data"] = [("k%d" % i, "x%d" % i + v, [None, "m" + v][i % 2]) for i in range(sx.choice("data", [0, 2] if what == "entry" else [0, 1, 3]))]
    if what == "entry":
        e, exp = entry(d, ts=("2020-01-01T00:00:07Z", sx.mk_datetime(2020, 1, 1, 0, 0, 7, tz=sx.mk_zone(0))), **kw)
        if "name" not in kw and "ref" in kw:
            exp = [x for x in exp if x[0] != "semantic:modelReference"]
        if sx.choice("turned", [0, 1]):
            e = e[:2] + (e[2][::-1],) + e[3:]
        process(d, [instance(d, [minimal(d), (e, exp), minimal(d, 1)], "i")], "p")
    elif what == "instance":
        process(d, [instance(d, [minimal(d)], **kw), instance(d, [minimal(d, 1)], "j")], "p")
    else:
        process(d, [instance(d, [minimal(d)], "i")], **kw)
        process(d, [instance(d, [minimal(d, 1)], "j")], "p2")
    verify(sx, d)


def shape(sx, procs, case):
    """Numbers of instances and entries: procs = tuple of tuples of numbers of entries."""
    d = Doc(sx, case)
    v = sx.str("v", [1])
    sx.assume(len(v.strip()) > 0)
    n = 0
    for p, insts in enumerate(procs):
        ii = []
        for i, k in enumerate(insts):
            es = []
            for e in range(k):
                es.append(entry(d, name="a%d" % n + v, etype="start", data=[("k%d" % n, "v%d" % n, None)],
                                ts=("2020-01-0%dT00:00:00Z" % (9 - n % 9), sx.mk_datetime(2020, 1, 9 - n % 9, tz=sx.mk_zone(0)))))
                n += 1
            ii.append(instance(d, es, "i%d" % i + v, data=[("id", "i%d" % i, None)]))
        process(d, ii, "p%d" % p, data=[("pd", "p%d" % p, None)])
    verify(sx, d)


def source(sx, n):
    d = Doc(sx)
    v, prog = txt(sx, "v", (0, 1)), sx.str("prog", [0, 1])
    atts = [("k%d" % i, v if i == 0 else "x", None) for i in range(n)]
    ref = sx.choice("ref", [None, "r"])
    at = {"program": prog}
    if ref:
        at["modelReference"] = ref
    d.kids.append(d.el("Source", at, d.data(atts)))
    process(d, [instance(d, [minimal(d)], "i")], "p")
    exp = data_exp(atts) + ([("semantic:modelReference", "literal", ref, None)] if ref else [])
    verify(sx, d, (prog, exp))


def standard(sx):
    """Extensions, classifiers and globals of a log read from MXML."""
    d = Doc(sx)
    process(d, [instance(d, [minimal(d)], "i")], "p")
    process(d, [], "q")
    for log in verify(sx, d):
        sx.check(sorted(e.get_prefix() for e in log.get_extensions()) == ["concept", "lifecycle", "org", "semantic", "time"], "extensions")
        sx.check([list(c.get_defining_attribute_keys()) for c in log.get_classifiers()] ==
                 [["concept:name", "lifecycle:transition"], ["concept:name"], ["org:resource"]], "classifiers")
        sx.check([a.get_key() for a in log.get_global_trace_attributes()] == ["concept:name"], "globals of traces")
        sx.check([a.get_key() for a in log.get_global_event_attributes()] == ["concept:name", "lifecycle:transition"], "globals of events")


def scenarios(tier):
    q = tier == "quick"
    L = (0, 1, 2) if q else (0, 1, 2, 3, 4)
    F = ["name", "type", "unknown", "originator", "timestamp", "badtime", "data"]
    r = [("entry-%s-%s" % (f, c), lambda sx, f=f, c=c: entries(sx, f, c, L)) for f in F for c in CASES]
    r += [("long-" + f, lambda sx, f=f: long(sx, f)) for f in ("name", "type", "originator", "data")]
    r += [("instance-" + f, lambda sx, f=f: inst(sx, f, L)) for f in ("id", "description", "ref", "data")]
    r += [("process-" + f, lambda sx, f=f: proc(sx, f, L)) for f in ("id", "description", "ref", "data")]
    for i, s in enumerate([(), ((),), ((0,),), ((1, 0, 2),), ((3,),), ((1,), (2, 1)), ((0, 1), (), (1, 1, 1)), ((1,) * 13, (14,), (2,), (1,), (1,), (1,), (1,), (1,), (1,), (1,), (1,), (3,))]):
        for c in CASES:
            r.append(("shape-%d-%s" % (i, c), lambda sx, s=s, c=c: shape(sx, s, c)))
    r += [("source-%d" % n, lambda sx, n=n: source(sx, n)) for n in range(3)]
    r += [("parts-" + w, lambda sx, w=w: parts(sx, w)) for w in ("instance", "process", "entry")]
    r += [("optional", optional), ("standard", standard)]
    return r
