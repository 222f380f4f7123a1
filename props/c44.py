"""C44: a written XES document follows the standard."""
from props.common import (KINDS, COLLECTIONS, VALUE_KINDS, CLASS, attr, cls, put, factory, write_log, kind_of, large_log, fixed_attr)
BOUNDS = {"quick": "every kind of attribute on every level with keys of length 0 to 2, texts of length 0 to 6, all integers, finite doubles, identifiers, instants of the "
                   "years 1 to 9999 with offsets within 14 hours; nesting of every kind to depth 3 in 3 nested attributes each; logs of up to 3 traces of up to 4 "
                   "events; every subset of three extensions, up to 2 globals per scope and 2 classifiers of up to 3 keys; text and bytes, plain and compressed; a log of 130 traces, 270 events in one of them, 110 attributes and 30 levels",
          "thorough": "texts of length 0 to 10, depth 4, 4 traces of up to 5 events"}
OUTSIDE = "the characters of the file (the XML libraries are modelled at the level of the infoset); the text of infinities and NaN; keys of classifiers with white space or quotes (C02, C25)"
ASSUMES = ["ElementTree, minidom and expat behave as modelled in symx/xmlstub.py (checked on witnesses at every run)"]
TAG = {"literal": "string", "discrete": "int", "continuous": "float", "boolean": "boolean", "timestamp": "date", "id": "id", "list": "list",
       "container": "container"}
ORDER = ["extension", "global", "classifier", "attribute", "trace"]


def get(node, k):
    r = [v for n, v in node[1] if n == k]
    return r[0] if len(r) == 1 else None


def date_text(sx, t, d):
    """The text is the xs:dateTime of the date, to the millisecond."""
    sx.check(len(t) in (24, 29), "length of the text of a date")
    sx.check(t[4] == "-" and t[7] == "-" and t[10] == "T" and t[13] == ":" and t[16] == ":" and t[19] == ".", "separators of a date")
    for a, b, v in ((0, 4, d.year), (5, 7, d.month), (8, 10, d.day), (11, 13, d.hour), (14, 16, d.minute), (17, 19, d.second),
                    (20, 23, d.microsecond // 1000)):
        sx.check(int(t[a:b]) == v, "fields of a date")
    off = d.utcoffset()
    m = 0 if off is None else (off.days * 86400 + off.seconds) // 60
    if len(t) == 24:
        sx.check(t[23] == "Z" and m == 0, "zone of a date")
    else:
        sx.check(t[23] in ("+", "-") and t[26] == ":", "zone of a date")
        v = int(t[24:26]) * 60 + int(t[27:29])
        sx.check((v if t[23] == "+" else -v) == m, "offset of a date")


def element(sx, a, node):
    """The element of an attribute, with its contents or nested attributes."""
    k = kind_of(a)
    sx.check(node[0] == TAG[k], "element of a " + k)
    sx.check(get(node, "key") == a.get_key(), "key")
    kids = list(a.get_collection()) if k in COLLECTIONS else list(a.get_attributes().values())
    if k in COLLECTIONS:
        sx.check([n for n, _ in node[1]] == ["key"], "a collection has a key and no value")
    else:
        sx.check(sorted(n for n, _ in node[1]) == ["key", "value"], "key and value")
        t, v = get(node, "value"), a.get_value()
        if k == "literal":
            sx.check(t == v, "text")
        elif k == "discrete":
            sx.check(int(t) == v, "integer")
            sx.check(t == str(v), "decimal text")
        elif k == "continuous":
            sx.check(sx.same_float(float(t), v), "floating point number")
        elif k == "boolean":
            sx.check(t == ("true" if v else "false"), "truth value")
        elif k == "id":
            sx.check(t.lower() == str(v.get_uuid()), "identifier")
        else:
            date_text(sx, t, v)
    sx.check(node[2].strip() == "", "no text in an element")
    elements(sx, kids, node[3])


def elements(sx, attributes, nodes):
    sx.check(len(nodes) == len(attributes), "one element per attribute")
    for a, n in zip(attributes, nodes):
        element(sx, a, n)


def rank(tag):
    return ORDER.index(tag) if tag in ORDER else 3 if tag in TAG.values() else -1


def document(sx, log, doc):
    sx.check(doc[0] == "log", "root element")
    sx.check(get(doc, "xes.version") == "1.0", "version of the standard")
    sx.check(get(doc, "xes.features") == "nested-attributes", "features")
    sx.check(get(doc, "openxes.version") is not None, "version of the library")
    ranks = [rank(n[0]) for n in doc[3]]
    sx.check(all(x >= 0 for x in ranks), "known elements only")
    sx.check(ranks == sorted(ranks), "extensions, globals, classifiers, attributes, traces in this order")
    parts = [[n for n, r in zip(doc[3], ranks) if r == i] for i in range(5)]
    sx.check(len(parts[0]) == len(log.get_extensions()), "one element per extension")
    for x in log.get_extensions():
        ns = [n for n in parts[0] if get(n, "prefix") == x.get_prefix()]
        sx.check(len(ns) == 1 and get(ns[0], "name") == x.get_name() and get(ns[0], "uri") == x.get_uri().geturl() and len(ns[0][1]) == 3,
                 "name, prefix and URI of an extension")
    exp = [(s, g) for s, g in (("trace", log.get_global_trace_attributes()), ("event", log.get_global_event_attributes())) if len(g)]
    sx.check([get(n, "scope") for n in parts[1]] == [s for s, _ in exp], "scopes of the globals")
    for (s, g), n in zip(exp, parts[1]):
        elements(sx, g, n[3])
    sx.check(len(parts[2]) == len(log.get_classifiers()), "one element per classifier")
    for c, n in zip(log.get_classifiers(), parts[2]):
        sx.check(get(n, "name") == c.name(), "name of a classifier")
        sx.check(get(n, "keys") == " ".join(c.get_defining_attribute_keys()), "keys of a classifier")
        sx.check(len(n[1]) == 2, "attributes of a classifier")
    elements(sx, list(log.get_attributes().values()), parts[3])
    sx.check(len(parts[4]) == len(log), "one element per trace")
    for t, n in zip(log, parts[4]):
        k = len(t.get_attributes())
        sx.check(n[1] == [] and len(n[3]) == k + len(t), "attributes and events of a trace")
        elements(sx, list(t.get_attributes().values()), n[3][:k])
        for e, m in zip(t, n[3][k:]):
            sx.check(m[0] == "event" and m[1] == [], "element of an event")
            elements(sx, list(e.get_attributes().values()), m[3])


def write(sx, log, mode):
    if mode == "gz":
        p = write_log(sx, log, "a.xes.gz", "data_out.XesXmlGZIPSerializer")
        sx.gunzip(p, sx.path("b.xes"))
        return sx.read_xml(sx.path("b.xes"))
    return sx.read_xml(write_log(sx, log, "a.xes", in_bytes={"text": None, "bytes": True}[mode]))


def one(sx, kind, L, mode):
    f = factory(sx)
    log, t, e = f.create_log(), f.create_trace(), f.create_event()
    log.append(t)
    t.append(e)
    a = attr(sx, "v", kind, sx.str("key", [0, 1, 2]), n=list(range(L + 1))) if kind == "literal" else \
        cls(sx, kind)(sx.str("key", [0, 2]), sx.float("v", finite=True)) if kind == "continuous" else attr(sx, "v", kind, sx.str("key", [0, 2]))
    put([log, t, e][sx.choice("level", [0, 1, 2])], a)
    document(sx, log, write(sx, log, mode))


def tree(sx, name, kind, depth):
    a = attr(sx, name, kind, "k" + name, small=True)
    if depth:
        for i in range(3):
            x = tree(sx, "%s%d" % (name, i), KINDS[(KINDS.index(kind) + 1 + 3 * i) % 8], depth - 1 if i < 2 else 0)
            if kind in COLLECTIONS:
                a.add_to_collection(x)
            else:
                put(a, x)
    return a


def nested(sx, kind, depth):
    f = factory(sx)
    log, t, e = f.create_log(), f.create_trace(), f.create_event()
    log.append(t)
    t.append(e)
    x = [log, t, e][sx.choice("level", [0, 1, 2])]
    put(x, attr(sx, "before", "literal", "before", small=True))
    put(x, tree(sx, "t", kind, depth))
    put(x, attr(sx, "after", "discrete", "after", small=True))
    document(sx, log, write(sx, log, "text"))


def structure(sx, ntr, nev):
    f = factory(sx)
    log = f.create_log()
    for i in range(sx.choice("traces", range(ntr + 1))):
        t = f.create_trace()
        log.append(t)
        if i % 2 == 0:
            put(t, attr(sx, "t%d" % i, "literal", "concept:name", small=True))
        for j in range(sx.choice("events%d" % i, range(nev + 1))):
            e = f.create_event()
            t.append(e)
            if (i + j) % 3:
                put(e, attr(sx, "e%d.%d" % (i, j), "discrete", "n", small=True))
    document(sx, log, write(sx, log, "text"))


def large(sx, mode):
    log = large_log(sx)
    C = sx.C("classification.XEventAttributeClassifier")
    for i in range(9):
        log.get_classifiers().append(C("c%d" % i, ["k%d" % j for j in range(1 + i)] + [sx.str("k%d" % i, [1], chars="abc")]))
    for i in range(12):
        log.get_global_event_attributes().append(fixed_attr(sx, KINDS[i % 8], "g%d" % (i % 7), i))
        log.get_global_trace_attributes().append(fixed_attr(sx, KINDS[(i + 3) % 8], "g%d" % (i % 7), i))
    document(sx, log, write(sx, log, mode))


def header(sx, kind):
    log = factory(sx).create_log()
    for x in ("XConceptExtension", "XTimeExtension", "XCostExtension"):
        if sx.choice(x, [0, 1]):
            log.get_extensions().add(sx.C("extension.std." + x)())
    for s, g in (("t", log.get_global_trace_attributes()), ("e", log.get_global_event_attributes())):
        for i in range(sx.choice("globals-" + s, [0, 2])):
            a = attr(sx, "g%s%d" % (s, i), KINDS[(KINDS.index(kind) + 3 * i) % 8], "g%d" % i, small=True)
            if i == 0:
                x = attr(sx, "g%s%dn" % (s, i), "discrete", "n", small=True)
                a.add_to_collection(x) if kind in COLLECTIONS else put(a, x)
            g.append(a)
    C = sx.C("classification.XEventAttributeClassifier")
    for i in range(sx.choice("classifiers", [0, 1, 2])):
        log.get_classifiers().append(C(sx.str("name%d" % i, [1, 2]), ["concept:name", "b", "a"][:2 + i - i % 2]))
    put(log, attr(sx, "la", kind, "la", small=True))
    log.append(factory(sx).create_trace())
    document(sx, log, write(sx, log, "text"))


def scenarios(tier):
    q = tier == "quick"
    r = [("large-" + m, lambda sx, m=m: large(sx, m)) for m in ("text", "bytes", "gz")]
    for i, k in enumerate(KINDS):
        r.append(("one-" + k, lambda sx, k=k: one(sx, k, 6 if q else 10, "text")))
        r.append(("one-other-" + k, lambda sx, k=k, i=i: one(sx, k, 1, ["gz", "bytes"][i % 2])))
        r.append(("nested-" + k, lambda sx, k=k: nested(sx, k, 3 if q else 4)))
        r.append(("header-" + k, lambda sx, k=k: header(sx, k)))
    r.append(("structure", lambda sx: structure(sx, 3 if q else 4, 4 if q else 5)))
    return r
