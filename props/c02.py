"""C02: XES round trip of extensions, globals and classifiers."""
from props.common import (KINDS, COLLECTIONS, VALUE_KINDS, attr, cls, put, factory, write_log, read_log, check_read,
                          check_read_map, fixed_attr)
BOUNDS = {"quick": "every subset of the eight standard extensions and one registered extension with arbitrary name, prefix and URI; up to 3 "
                   "global attributes per scope of every kind, nested to depth 2, up to 3 with keys that may coincide; up to 3 classifiers of up to 3 keys, names of length 1 "
                   "to 3 and 30, keys of length 0 to 4; a log of 16 globals per scope and 12 classifiers of up to 12 keys",
          "thorough": "as quick with names of length 1 to 5, keys of length 0 to 5, 3 classifiers and up to 4 keys"}
OUTSIDE = ("classifiers without name or without keys; classifiers of other classes than the attribute classifiers; extensions that "
           "are not registered; tabs and line ends in names and keys (known finding of C01)")
ASSUMES = ["ElementTree, minidom and expat behave as modelled in symx/xmlstub.py (checked on witnesses at every run)"]
STD = ["XConceptExtension", "XCostExtension", "XIdentityExtension", "XLifecycleExtension", "XMicroExtension",
       "XOrganizationalExtension", "XSemanticExtension", "XTimeExtension"]


def rt(sx, log):
    return read_log(sx, write_log(sx, log, "a.xes"))


def extensions(sx, rot):
    log = factory(sx).create_log()
    exts = []
    for i in range(8):
        n = STD[(i + rot) % 8]
        if sx.choice("use" + n, [0, 1]):
            exts.append(sx.C("extension.std." + n)())
            log.get_extensions().add(exts[-1])
    b = rt(sx, log)
    sx.check(len(b.get_extensions()) == len(exts), "number of extensions")
    for e in exts:
        sx.check(e in b.get_extensions(), "extension " + e.get_name())
    sx.check(len(b.get_attributes()) == 0, "no attributes")


def custom(sx):
    """An extension registered under its own name, prefix and URI."""
    prefix = sx.str("prefix", [1, 2, 3])
    for p in ("org",):
        sx.assume(sx.no(prefix == p))
    ext = sx.C("extension.XExtension")(sx.str("name", [0, 1, 2]), prefix, sx.uri("u", 3))
    sx.C("extension.XExtensionManager")().register(ext)
    log = factory(sx).create_log()
    if sx.choice("with", [0, 1]):
        log.get_extensions().add(sx.C("extension.std.XOrganizationalExtension")())
    log.get_extensions().add(ext)
    b = rt(sx, log)
    sx.check(len(b.get_extensions()) == len(log.get_extensions()), "number of extensions")
    got = [x for x in b.get_extensions() if x.get_uri() == ext.get_uri()]
    sx.check(len(got) == 1, "the registered extension is read")
    sx.check(got[0].get_prefix() == prefix, "its prefix")
    sx.check(got[0].get_name() == ext.get_name(), "its name")


def glob(sx, kind, name, nested):
    a = attr(sx, name, kind, sx.str("k" + name, [0, 1]) if name.endswith("0") else "k" + name, small=True)
    if nested:
        for i in range(2):
            x = attr(sx, "%sn%d" % (name, i), KINDS[(KINDS.index(kind) + 1 + i) % 8], "n%d" % i, small=True)
            if i == 0 and kind not in COLLECTIONS:
                put(x, attr(sx, name + "nn", "discrete", "nn", small=True)) if not isinstance(
                    x, (cls(sx, "list"), cls(sx, "container"))) else x.add_to_collection(
                        attr(sx, name + "nn", "discrete", "nn", small=True))
            if kind in COLLECTIONS:
                a.add_to_collection(x)
            else:
                put(a, x)
    return a


def globals_(sx, kind, scope, n):
    """Global attributes of one scope next to the other scope, log attributes and traces."""
    f = factory(sx)
    log = f.create_log()
    put(log, attr(sx, "la", "literal", "la", small=True))
    one = log.get_global_trace_attributes() if scope == "trace" else log.get_global_event_attributes()
    two = log.get_global_event_attributes() if scope == "trace" else log.get_global_trace_attributes()
    for i in range(sx.choice("n", range(1, n + 1))):
        one.append(glob(sx, KINDS[(KINDS.index(kind) + 3 * i) % 8], "g%d" % i, sx.choice("nested%d" % i, [0, 1])))
    if sx.choice("other", [0, 1]):
        two.append(attr(sx, "o", "boolean", "o"))
    t, e = f.create_trace(), f.create_event()
    put(t, attr(sx, "ta", "discrete", "ta", small=True))
    put(e, attr(sx, "ea", "literal", "ea", small=True))
    t.append(e)
    log.append(t)
    if sx.choice("classifier", [0, 1]):
        log.get_classifiers().append(sx.C("classification.XEventAttributeClassifier")("C", ["concept:name"]))
    b = rt(sx, log)
    for x, y, w in ((log.get_global_trace_attributes(), b.get_global_trace_attributes(), "global trace attribute"),
                    (log.get_global_event_attributes(), b.get_global_event_attributes(), "global event attribute")):
        sx.check(len(x) == len(y), "number of " + w + "s")
        for p, q in zip(x, y):
            check_read(sx, p, q, w)
    check_read_map(sx, log, b, "log")
    sx.check(len(b) == 1 and len(b[0]) == 1, "one trace, one event")
    check_read_map(sx, t, b[0], "trace")
    check_read_map(sx, e, b[0][0], "event")
    sx.check(len(b.get_classifiers()) == len(log.get_classifiers()), "classifiers")


def repeated(sx, scope, n, kinds):
    """Global attributes whose keys may coincide: all of them are kept, in order."""
    log = factory(sx).create_log()
    one = log.get_global_trace_attributes() if scope == "trace" else log.get_global_event_attributes()
    for i, k in enumerate(kinds[:n]):
        one.append(attr(sx, "g%d" % i, k, sx.str("k%d" % i, [0, 1] if i < 2 else [1]), small=True))
    b = rt(sx, log)
    two = b.get_global_trace_attributes() if scope == "trace" else b.get_global_event_attributes()
    sx.check(len(two) == n, "number of global attributes")
    for x, y in zip(one, two):
        check_read(sx, x, y, "global attribute")
    sx.check(len(b.get_attributes()) == 0, "no attributes of the log")


def classifier(sx, nkeys, namelens, keylens):
    C = sx.C("classification.XEventAttributeClassifier")
    name = sx.str("name", namelens)
    keys = [sx.str("k%d" % i, keylens) for i in range(nkeys)]
    log = factory(sx).create_log()
    log.get_classifiers().append(C(name, keys))
    b = rt(sx, log)
    sx.check(len(b.get_classifiers()) == 1, "one classifier")
    c = b.get_classifiers()[0]
    sx.check(isinstance(c, C), "an attribute classifier")
    sx.check(c.name() == name, "name")
    got = list(c.get_defining_attribute_keys())
    sx.check(len(got) == nkeys, "number of keys")
    for x, y in zip(keys, got):
        sx.check(x == y, "keys in order")
    sx.observe("keys", got)


def classifiers(sx, n):
    """Several classifiers, also with equal names and the predefined ones, in order."""
    C = sx.C("classification.XEventAttributeClassifier")
    log = factory(sx).create_log()
    cl = []
    for i in range(sx.choice("n", range(n + 1))):
        kind = sx.choice("kind%d" % i, [0, 1, 2, 3])
        if kind == 0:
            cl.append(C(sx.str("name%d" % i, [1, 2]), [sx.str("key%d" % i, [1]), "b c"][:1 + i % 2]))
        elif kind == 1:
            cl.append(sx.C("classification.XEventNameClassifier")())
        elif kind == 2:
            cl.append(sx.C("classification.XEventResourceClassifier")())
        else:
            cl.append(sx.C("classification.XEventAndClassifier")([C("A", ["x"]), C("B", ["y z", "x"])]))
        log.get_classifiers().append(cl[-1])
    b = rt(sx, log)
    sx.check(len(b.get_classifiers()) == len(cl), "number of classifiers")
    for x, y in zip(cl, b.get_classifiers()):
        sx.check(x.name() == y.name(), "name")
        p, q = list(x.get_defining_attribute_keys()), list(y.get_defining_attribute_keys())
        sx.check(len(p) == len(q), "number of keys")
        for s, t in zip(p, q):
            sx.check(s == t, "keys")
    sx.check(len(b.get_attributes()) == 0, "no attributes of the log")


def many(sx, extra):
    """Fifteen globals per scope, twelve classifiers of up to eleven keys, all extensions."""
    C = sx.C("classification.XEventAttributeClassifier")
    f = factory(sx)
    log = f.create_log()
    for n in STD:
        log.get_extensions().add(sx.C("extension.std." + n)())
    for j, g in enumerate((log.get_global_trace_attributes(), log.get_global_event_attributes())):
        for i in range(15):
            g.append(fixed_attr(sx, KINDS[(i + j) % 8], "key%d" % (i % 13), i + j))
        g.append(attr(sx, "end%d" % j, "literal", sx.str("k%d" % j, [1]), small=True))
        for i in range(6):
            put(g[1], fixed_attr(sx, KINDS[(i + j) % 6], "n%d" % i, i))
    for i in range(12):
        log.get_classifiers().append(C("classifier %d" % (i % 10), ["key %d" % j if j % 2 else "k%d" % j for j in range(i)] + [sx.str("ck%d" % i, [1]) if i == extra else "z"]))
    for i in range(12):
        t = f.create_trace()
        if i == 7:
            t.append(f.create_event())
        log.append(t)
    b = rt(sx, log)
    sx.check(len(b.get_extensions()) == 8 and all(e in b.get_extensions() for e in log.get_extensions()), "extensions")
    for x, y, w in ((log.get_global_trace_attributes(), b.get_global_trace_attributes(), "global trace attribute"),
                    (log.get_global_event_attributes(), b.get_global_event_attributes(), "global event attribute")):
        sx.check(len(x) == len(y), "number of " + w + "s")
        for p, q in zip(x, y):
            check_read(sx, p, q, w)
    sx.check(len(b.get_classifiers()) == 12, "number of classifiers")
    for x, y in zip(log.get_classifiers(), b.get_classifiers()):
        p, q = list(x.get_defining_attribute_keys()), list(y.get_defining_attribute_keys())
        sx.check(x.name() == y.name() and len(p) == len(q), "name and number of keys")
        for s, t in zip(p, q):
            sx.check(s == t, "keys in order")
    sx.check(len(b) == 12 and len(b.get_attributes()) == 0, "traces and attributes")


def scenarios(tier):
    q = tier == "quick"
    nl = [1, 2, 3] if q else [1, 2, 3, 4, 5]
    kl = [0, 1, 2] if q else [0, 1, 2, 3, 4]
    r = [("extensions", lambda sx: extensions(sx, 0), {"weight": 5}), ("custom", custom)]
    for j in range(8):
        ks = [KINDS[j], KINDS[(j + 1) % 8], KINDS[j], KINDS[(j + 5) % 8]]
        r.append(("repeated-" + KINDS[j], lambda sx, ks=ks, j=j: repeated(sx, ("trace", "event")[j % 2], 3 if q else 4, ks)))
    r += [("globals-%s-%s" % (s, k), lambda sx, s=s, k=k: globals_(sx, k, s, 3), {"weight": 2}) for s in ("trace", "event")
          for k in KINDS]
    r += [("classifier-1", lambda sx: classifier(sx, 1, nl, [0, 1, 2, 3] if q else [0, 1, 2, 3, 4, 5])),
          ("classifier-2", lambda sx: classifier(sx, 2, [1], kl), {"weight": 4}),
          ("classifier-3", lambda sx: classifier(sx, 3, [1], [1] if q else [0, 1, 2]), {"weight": 4}),
          ("classifier-long", lambda sx: classifier(sx, 1, [30], [4] if q else [6]), {"weight": 4}),
          ("classifiers", lambda sx: classifiers(sx, 3), {"weight": 3})]
    r += [("many-%d" % i, lambda sx, i=i: many(sx, i), {"weight": 4}) for i in (0, 11)]
    if not q:
        r.append(("extensions-rotated", lambda sx: extensions(sx, 3), {"weight": 5}))
        r.append(("classifier-4", lambda sx: classifier(sx, 4, [1], [1]), {"weight": 5}))
    return r
