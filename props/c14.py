"""C14: log summaries."""
from props.common import factory, put, cls, attr, COLLECTIONS, large_log
BOUNDS = {"quick": "logs of up to 4 events in every division into up to 3 traces; names, resources, transitions and timestamps present or missing, "
                   "texts of length 0 to 2, timestamps with offset; up to 4 attributes with arbitrary keys on each level and nesting to depth 3; default, given and "
                   "additional classifiers (logs of 3 events: one classifying attribute); a log of 130 traces and 270 events, one with arbitrary values",
          "thorough": "texts of length 0 to 3"}
OUTSIDE = "larger logs; timestamps without offset"
ANY_TEXT = True
ASSUMES = []
NAME, RES, TRANS, TIME = "concept:name", "org:resource", "lifecycle:transition", "time:timestamp"


def build(sx, shape, present, lens=(0, 1)):
    """present(k, t, i) -> whether the event has the attribute."""
    f = factory(sx)
    log, evs = f.create_log(), []
    for t, n in enumerate(shape):
        tr = f.create_trace()
        put(tr, cls(sx, "literal")(NAME, "t%d" % t))
        row = []
        for i in range(n):
            e, v = f.create_event(), {}
            for k in (NAME, RES, TRANS, TIME):
                if present(k, t, i):
                    n_ = "%s.%d.%d" % (k, t, i)
                    v[k] = sx.datetime(n_, off=(-840, 840)) if k == TIME else sx.str(n_, list(lens))
                    put(e, cls(sx, "timestamp" if k == TIME else "literal")(k, v[k]))
            tr.append(e)
            row.append((e, v))
        evs.append(row)
        log.append(tr)
    return log, evs


def count(ids):
    r = []
    for i in ids:
        for g in r:
            if g[0] == i:
                g[1] += 1
                break
        else:
            r.append([i, 1])
    return r


def check_classes(sx, classes, ids, what):
    sx.check(classes is not None, what + ": there")
    exp = count(ids)
    sx.check(len(classes) == len(exp), what + ": one class per identity")
    for g, n in exp:
        k = classes.get_by_identity(g)
        sx.check(k is not None and k.size() == n, what + ": size")
        sx.check(k.get_index() == sum(1 if o < g else 0 for o, _ in exp), what + ": index in order")


def identity(v, keys):
    t = v.get(keys[0], "")
    for k in keys[1:]:
        t = t + "&&" + v.get(k, "")
    return t


def classes(sx, shape, keys, mode, lens):
    X = sx.C("info.XLogInfo")
    C = sx.C("classification.XEventAttributeClassifier")
    log, evs = build(sx, shape, lambda k, t, i: k in keys and (k == keys[0] or sx.choice("p%s%d.%d" % (k, t, i), [1, 0])), lens)
    vs = [v for row in evs for _, v in row]
    std = C("MXML Legacy Classifier", [NAME, TRANS])
    r, own, more = None, None, []
    if mode == "create":
        r = X.create(log)
    elif mode == "default":
        own = C("mine", [RES, NAME])
        r = X.create(log, own)
    elif mode == "more":
        own, more = C("mine", [TRANS]), [C("a", [RES, TRANS, NAME]), sx.C("classification.XEventAndClassifier")([C("x", [RES]), C("y", [NAME])])]
        r = X.create(log, own, more)
    elif mode == "name":
        own = sx.C("classification.XEventNameClassifier")()
        r = X.create(log, own, [C("a", [RES])])
        more = [C("a", [RES])]
    elif mode == "factory":
        r = sx.C("info.XLogInfoFactory").create_log_info(log)
    else:
        own = C("mine", [RES, NAME])
        r = sx.C("info.XLogInfoFactory").create_log_info(log, own)
    sx.check(r.get_number_of_traces() == len(shape), "number of traces")
    sx.check(r.get_number_of_event() == sum(shape), "number of events")
    sx.check(r.get_log() is log, "the log")
    d = own or std
    check_classes(sx, r.get_event_classes(), [identity(v, list(d.get_defining_attribute_keys())) for v in vs], "default classes")
    check_classes(sx, r.get_event_classes(d), [identity(v, list(d.get_defining_attribute_keys())) for v in vs], "classes of the default classifier")
    check_classes(sx, r.get_name_classes(), [v.get(NAME, "") for v in vs], "name classes")
    check_classes(sx, r.get_resource_classes(), [v.get(RES, "") for v in vs], "resource classes")
    check_classes(sx, r.get_transition_classes(), [v.get(TRANS, "") for v in vs], "transition classes")
    for c in more:
        check_classes(sx, r.get_event_classes(c), [identity(v, list(c.get_defining_attribute_keys())) for v in vs], "classes of a further classifier")
    got = r.get_event_classifiers()
    for c in more + [d]:
        sx.check(c in got, "classifiers reported")
    sx.check(len(got) == len(set([x.name() for x in more + [d]] + [sx.C("classification." + n)().name() for n in (
        "XEventNameClassifier", "XEventResourceClassifier", "XEventLifeTransClassifier")])), "no other classifiers")
    sx.check(r.get_event_classes(C("never", ["x"])) is None, "no classes of an unknown classifier")


def named(sx, n):
    """Classifiers with arbitrary names and keys."""
    X, C = sx.C("info.XLogInfo"), sx.C("classification.XEventAttributeClassifier")
    log, evs = build(sx, (1, 1), lambda k, t, i: k in (TRANS, RES))
    vs = [v for row in evs for _, v in row]
    c = C(sx.str("name", [0, 1]), [TRANS, RES])
    if n == "default":
        r = X.create(log, c)
    else:
        r = X.create(log, None, [c])
    check_classes(sx, r.get_event_classes(c), [identity(v, list(c.get_defining_attribute_keys())) for v in vs], "classes by a classifier")
    if n == "default":
        check_classes(sx, r.get_event_classes(), [identity(v, list(c.get_defining_attribute_keys())) for v in vs], "default classes")


def bounds(sx, shape):
    log, evs = build(sx, shape, lambda k, t, i: k == TIME and sx.choice("p%d.%d" % (t, i), [1, 0]))
    r = sx.C("info.XLogInfo").create(log)
    check_bounds(sx, r.get_log_time_boundaries(), [v[TIME] for row in evs for _, v in row if TIME in v], "bounds of the log")
    for t, row in zip(list(log), evs):
        check_bounds(sx, r.get_trace_time_boundaries(t), [v[TIME] for _, v in row if TIME in v], "bounds of a trace")
    other = factory(sx).create_trace()
    put(other, cls(sx, "literal")(NAME, "other"))
    other.append(factory(sx).create_event())
    sx.check(r.get_trace_time_boundaries(other) is None, "no bounds of another trace")


def check_bounds(sx, b, ds, what):
    sx.check(b is not None, what + ": there")
    lo, hi = b.get_start_date(), b.get_end_date()
    if not ds:
        sx.check(lo is None and hi is None, what + ": none")
        return
    sx.check(lo is not None and hi is not None, what + ": not none")
    for d in ds:
        sx.check(sx.both(lo <= d, d <= hi), what + ": all dates within")
    sx.check(sx.both(sx.either(*[lo == d for d in ds]), sx.either(*[hi == d for d in ds])), what + ": exact")


def freq(sx, info, keys, what, extra):
    for k in keys + [extra]:
        n = sum(1 if k == o else 0 for o in keys)
        sx.check(info.get_frequency(k) == n, what + ": frequency")
        if keys:
            sx.check(info.get_relative_frequency(k) == n / len(keys), what + ": relative frequency")
    exp = count(keys)
    got = list(info.get_attribute_keys())
    sx.check(len(got) == len(exp), what + ": number of keys")
    for g in got:
        sx.check(sx.either(*[g == k for k, _ in exp]), what + ": keys")


def levels(sx, where, n):
    """Attributes with arbitrary keys on one level; fixed ones on the others; every second one has nested ones."""
    f = factory(sx)
    log, trace, ev, ev2 = f.create_log(), f.create_trace(), f.create_event(), f.create_event()
    keys = {"log": [], "trace": [], "event": [], "meta": []}
    fixed = {"log": [log], "trace": [trace], "event": [ev, ev2]}
    kinds = ["literal", "discrete", "list", "boolean", "container"]
    pool = ["m", "n"]
    for lv in ("log", "trace", "event"):
        put(fixed[lv][0], cls(sx, "literal")("m", lv))
        keys[lv].append("m")
    if where != "meta":
        els = fixed[where] if where == "event" else fixed[where] * 2
        for i in range(n):
            k = sx.str("k%d" % i, [0, 1])
            a = attr(sx, "v%d" % i, kinds[i % 5], k, small=True)
            e = els[i % 2]
            if k in e.get_attributes():
                sx.assume(False)
            put(e, a)
            keys[where].append(k)
            if i % 2:
                put(a, cls(sx, "literal")("m", "meta"))
                keys["meta"].append("m")
    else:
        a = cls(sx, "literal")("a", "x")
        put(ev2, a)
        keys["event"].append("a")
        for i in range(n):
            k = sx.str("k%d" % i, [0, 1])
            b = attr(sx, "v%d" % i, kinds[i % 5], k, small=True)
            put(a, b)
            keys["meta"].append(k)
            put(a, cls(sx, "discrete")("mm%d" % i, i))
            keys["meta"].append("mm%d" % i)
            a = b
        c = cls(sx, "list")("l", None)
        put(log, c)
        keys["log"].append("l")
        put(c, cls(sx, "discrete")("m", 3))
        keys["meta"].append("m")
    trace.append(ev)
    trace.append(ev2)
    log.append(trace)
    r = sx.C("info.XLogInfo").create(log)
    extra = sx.str("extra", [1])
    freq(sx, r.get_log_attribute_info(), keys["log"], "log", extra)
    freq(sx, r.get_trace_attribute_info(), keys["trace"], "trace", extra)
    freq(sx, r.get_event_attribute_info(), keys["event"], "event", extra)
    freq(sx, r.get_meta_attribute_info(), keys["meta"], "nested", extra)


def large(sx, mode):
    """A large log, in which one event has arbitrary values."""
    log = large_log(sx, lists=False)
    e = log[len(log) // 2][9]
    if mode == "classes":
        put(e, cls(sx, "literal")(NAME, "act " + sx.str("n", [1])), cls(sx, "literal")(TRANS, "starT"))
    elif mode == "bounds":
        put(e, cls(sx, "timestamp")(TIME, sx.datetime("w", off=(-840, 840))))
    evs = [[(e, dict((k, a.get_value()) for k, a in e.get_attributes().items())) for e in t] for t in log]
    vs = [v for row in evs for _, v in row]
    C = sx.C("classification.XEventAttributeClassifier")
    r = sx.C("info.XLogInfo").create(log, C("mine", [RES, NAME, TRANS]))
    sx.check(r.get_number_of_traces() == len(evs) and r.get_number_of_event() == len(vs), "numbers of traces and events")
    if mode == "classes":
        check_classes(sx, r.get_event_classes(), [identity(v, [RES, NAME, TRANS]) for v in vs], "default classes")
        check_classes(sx, r.get_name_classes(), [v[NAME] for v in vs], "name classes")
        check_classes(sx, r.get_resource_classes(), [v[RES] for v in vs], "resource classes")
        check_classes(sx, r.get_transition_classes(), [v[TRANS] for v in vs], "transition classes")
    elif mode == "bounds":
        check_bounds(sx, r.get_log_time_boundaries(), [v[TIME] for v in vs], "bounds of the log")
        for t, row in zip(list(log), evs):
            check_bounds(sx, r.get_trace_time_boundaries(t), [v[TIME] for _, v in row], "bounds of a trace")
    else:
        keys = {"log": [], "trace": [], "event": [], "meta": []}

        def walk(a):
            for k, b in a.get_attributes().items():
                keys["meta"].append(k)
                walk(b)
        for n, els in (("log", [log]), ("trace", list(log)), ("event", [e for t in log for e in t])):
            for el in els:
                for k, a in el.get_attributes().items():
                    keys[n].append(k)
                    walk(a)
        for n in keys:
            info = getattr(r, "get_%s_attribute_info" % n)()
            for k in sorted(set(keys[n])):
                m = keys[n].count(k)
                sx.check(info.get_frequency(k) == m and info.get_relative_frequency(k) == m / len(keys[n]), n + ": frequency")
            sx.check(sorted(info.get_attribute_keys()) == sorted(set(keys[n])), n + ": keys")


def scenarios(tier):
    q = tier == "quick"
    L = (0, 1, 2) if q else (0, 1, 2, 3)
    r = []
    for s in [(), (0,), (1,), (2,), (1, 1), (0, 2), (1, 2), (1, 0, 1), (3,), (1, 1, 1)]:
        for m in ("create", "default", "more", "name", "factory", "factory-own"):
            if sum(s) < 3 or m in ("create", "more"):
                ks = {"create": (NAME, TRANS), "factory": (NAME, TRANS), "default": (RES, NAME), "name": (NAME, RES),
                      "more": (TRANS, RES), "factory-own": (RES, NAME)}[m]
                r.append(("classes-%s-%s" % (m, "-".join(map(str, s)) or "none"), lambda sx, s=s, m=m, ks=ks: classes(sx, s, ks if sum(s) < 3 else ks[:1], m, L)))
    for s in [(), (0,), (1,), (2,), (1, 1), (0, 2, 0), (1, 2), (2, 1), (3,), (1, 1, 1), (4,), (2, 2)]:
        r.append(("bounds-" + ("-".join(map(str, s)) or "none"), lambda sx, s=s: bounds(sx, s)))
    r += [("named-" + n, lambda sx, n=n: named(sx, n)) for n in ("default", "more")]
    r += [("large-" + m, lambda sx, m=m: large(sx, m)) for m in ("classes", "bounds", "levels")]
    for w in ("log", "trace", "event", "meta"):
        r.append(("levels-" + w, lambda sx, w=w: levels(sx, w, 4)))
    return r
