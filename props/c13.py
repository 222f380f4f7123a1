"""C13: event classes."""
from props.common import factory, put, cls, value, large_log
BOUNDS = {"quick": "logs of up to 4 events in every division into up to 3 traces, class attribute present or missing with texts of length 0 to 2; "
                   "sequences of 2 registrations of logs, traces, events and identities, of 3 of events and identities; 12 identities sharing long prefixes; a log of 130 traces and 270 events with one arbitrary name",
          "thorough": "logs of up to 5 events, sequences of 3 registrations of all, of 4 of events and identities"}
OUTSIDE = "larger logs"
ANY_TEXT = True
ASSUMES = []
KEY = "concept:name"


def event(sx, name, lens, missing=True):
    e = factory(sx).create_event()
    put(e, cls(sx, "literal")("noise", name))
    if not missing or sx.choice("p" + name, [1, 0]):
        v = sx.str(name, lens)
        put(e, cls(sx, "literal")(KEY, v))
        return e, v
    return e, ""


def groups(ids):
    """Distinct identities with the number of occurrences, sorted."""
    r = []
    for i in ids:
        for g in r:
            if g[0] == i:
                g[1] += 1
                break
        else:
            r.append([i, 1])
    out = []
    for g in r:
        k = 0
        while k < len(out) and out[k][0] < g[0]:
            k += 1
        out.insert(k, g)
    return out


def verify(sx, c, ids, evs, unknown, harmonized=True):
    exp = groups(ids)
    sx.check(len(c) == len(exp), "one class per distinct identity")
    got = list(c.get_classes())
    sx.check(len(got) == len(exp), "classes listed")
    for i, (g, n) in enumerate(exp):
        k = c.get_by_identity(g)
        sx.check(k is not None, "class of every identity")
        sx.check(k.get_id() == g and str(k) == g, "identity of the class")
        sx.check(k.size() == n, "size is the number of events")
        if harmonized:
            sx.check(k.get_index() == i, "indices in the order of the identities")
            b = c.get_by_index(i)
            sx.check(b is not None and b.get_id() == g, "lookup by index")
        sx.check(sx.either(*[x.get_id() == g for x in got]), "every class is listed")
    if not harmonized:
        sx.check(sorted(x.get_index() for x in got) == list(range(len(exp))), "indices are 0 to n-1")
        for x in got:
            sx.check(c.get_by_index(x.get_index()) is x, "lookup by index")
    sx.check(sum(x.size() for x in got) == len(ids), "sizes add up to the number of events")
    for e, i in evs:
        k = c.get_class_of(e)
        sx.check(k is not None and k.get_id() == i, "lookup by event")
        sx.check(k is c.get_by_identity(i), "the same class by event and by identity")
    for i in (-1, len(exp), len(exp) + 3):
        sx.check(c.get_by_index(i) is None, "no class of an unknown index")
    if sx.both(*[unknown != i for i in ids]):
        sx.check(c.get_by_identity(unknown) is None, "no class of an unknown identity")
        e = factory(sx).create_event()
        put(e, cls(sx, "literal")(KEY, unknown))
        sx.check(c.get_class_of(e) is None, "no class of an unknown event")
    sx.observe("classes", [[x.get_id(), x.size(), x.get_index()] for x in got])


def derive(sx, traces, lens, unknown):
    f = factory(sx)
    log, ids, evs = f.create_log(), [], []
    for t, n in enumerate(traces):
        tr = f.create_trace()
        put(tr, cls(sx, "literal")(KEY, "t%d" % t))
        for i in range(n):
            e, v = event(sx, "e%d.%d" % (t, i), lens)
            tr.append(e)
            evs.append((e, v))
            ids.append(v)
        log.append(tr)
    C = sx.C("classification.XEventClasses")
    c = C.derive_event_classes(sx.C("classification.XEventNameClassifier")(), log)
    verify(sx, c, ids, evs, sx.str("unknown", [0, 1]) if unknown else "some unknown identity")
    d = C.derive_event_classes(sx.C("classification.XEventNameClassifier")(), log)
    for x in d.get_classes():
        y = c.get_by_identity(x.get_id())
        sx.check(y is not None and y.size() == x.size() and y == x and sx.hash_eq(x, y), "deriving again gives the same classes")


def steps(sx, n, first, kinds=("log", "trace", "event", "str", "harmonize", "emptylog")):
    C = sx.C("classification.XEventClasses")
    c = C(sx.C("classification.XEventNameClassifier")())
    f, ids, evs = factory(sx), [], []
    for i in range(n):
        if i:
            verify(sx, c, ids, evs, "some unknown identity", False)
        k = first if i == 0 else sx.choice("k%d" % i, list(kinds))
        if k == "harmonize":
            c.harmonize_indices()
        elif k == "str":
            v = sx.str("s%d" % i, [0, 1])
            ids.append(v)
            c.register(v)
        elif k == "emptylog":
            lg = f.create_log()
            lg.append(f.create_trace())
            c.register(lg)
        else:
            es = [event(sx, "e%d.%d" % (i, j), [0, 1], False) for j in range(1 if k == "event" else 2)]
            evs += es
            ids += [v for _, v in es]
            if k == "event":
                c.register(es[0][0])
            else:
                t = f.create_trace()
                for e, _ in es[:1] if k == "log" else es:
                    t.append(e)
                if k == "trace":
                    c.register(t)
                else:
                    lg, u = f.create_log(), f.create_trace()
                    u.append(es[1][0])
                    lg.append(t)
                    lg.append(u)
                    c.register(lg)
    verify(sx, c, ids, evs, "some unknown identity", False)
    c.harmonize_indices()
    verify(sx, c, ids, evs, "some unknown identity")


def many(sx):
    """Twelve identities with long common prefixes; one symbolic."""
    C = sx.C("classification.XEventClasses")
    f = factory(sx)
    t, ids, evs = f.create_trace(), [], []
    pre = "activity of the process number "
    x = sx.str("c", [1])
    for i in list(range(12)) + [3, 3, 7]:
        e = f.create_event()
        v = pre + (x if i == 3 else str(i))
        put(e, cls(sx, "literal")(KEY, v))
        t.append(e)
        ids.append(v)
        evs.append((e, v))
    lg = f.create_log()
    lg.append(t)
    verify(sx, C.derive_event_classes(sx.C("classification.XEventNameClassifier")(), lg), ids, evs, pre)


def large(sx):
    """A log of many traces with names that repeat, one arbitrary."""
    log = large_log(sx, attrs=0, deep=False, lists=False)
    put(log[len(log) // 2][9], cls(sx, "literal")(KEY, "act " + sx.str("n", [1])))
    evs = [(e, e.get_attributes()[KEY].get_value()) for t in log for e in t]
    C = sx.C("classification.XEventClasses")
    verify(sx, C.derive_event_classes(sx.C("classification.XEventNameClassifier")(), log), [v for _, v in evs], evs, "act")


def kinds(sx, kind):
    """Identities from values that are not texts."""
    C = sx.C("classification.XEventClasses")
    f = factory(sx)
    lg, t, ids, evs = f.create_log(), f.create_trace(), [], []
    for i in range(3):
        e = f.create_event()
        a = cls(sx, kind)("k", value(sx, "v%d" % i, kind, small=True))
        put(e, a)
        t.append(e)
        ids.append(str(a))
        evs.append((e, str(a)))
    lg.append(t)
    c = C.derive_event_classes(sx.C("classification.XEventAttributeClassifier")("c", ["k"]), lg)
    exp = groups(ids)
    sx.check(len(c) == len(exp), "one class per distinct value")
    for g, n in exp:
        sx.check(c.get_by_identity(g) is not None and c.get_by_identity(g).size() == n, "size of the class of a value")


def order(sx):
    K = sx.C("classification.XEventClass")
    i, j = sx.str("i", [0, 1, 2]), sx.str("j", [0, 1, 2])
    a, b = K(i, sx.int("x", 0, 3)), K(j, sx.int("y", 0, 3))
    b.set_size(sx.int("n", 0, 10 ** 6))
    for r, c, n in ((a == b, i == j, "=="), (a != b, i != j, "!="), (a < b, i < j, "<"), (a <= b, i <= j, "<="), (a > b, i > j, ">"),
                    (a >= b, i >= j, ">=")):
        sx.check(r == c, "classes compare by identity: " + n)
    if a == b:
        sx.check(sx.hash_eq(a, b), "equal classes have equal hashes")
    m = b.size()
    b.increment_size()
    sx.check(b.size() == m + 1, "increment_size")
    sx.check(a.size() == 0, "a new class is empty")


def again(sx):
    """An event that was registered, changed and registered once more counts for both identities; asking in between changes nothing."""
    C = sx.C("classification.XEventClasses")
    c = C(sx.C("classification.XEventNameClassifier")())
    f = factory(sx)
    e, g = f.create_event(), f.create_event()
    ids = []
    for i in range(3):
        v = sx.str("v%d" % i, [1])
        put(e, cls(sx, "literal")(KEY, v))
        put(g, cls(sx, "literal")(KEY, "act"))
        c.register(e)
        ids.append(v)
        sx.check(c.get_class_of(e) is c.get_by_identity(v), "class of the event as it is now")
        if i != 1:
            c.register(g)
            ids.append("act")
        verify(sx, c, ids, [(e, v)] + ([(g, "act")] if i else []), "some unknown identity", False)
    c.harmonize_indices()
    verify(sx, c, ids, [(e, v), (g, "act")], "some unknown identity")
    k = c.get_by_identity("act")
    n = k.size()
    c.register("act")
    sx.check(k.size() == n + 1 and c.get_by_identity("act") is k, "the class found before counts on")
    verify(sx, c, ids + ["act"], [(e, v), (g, "act")], "some unknown identity")


def scenarios(tier):
    q = tier == "quick"
    shapes = [(), (0,), (1,), (0, 1), (2,), (1, 1), (3,), (1, 2), (2, 1), (1, 1, 1), (1, 0, 1), (4,), (2, 2), (1, 2, 1)]
    shapes += [] if q else [(5,), (2, 3), (1, 3, 1)]
    r = [("derive-" + ("-".join(map(str, s)) or "empty"), lambda sx, s=s: derive(sx, s, [0, 1, 2] if sum(s) <= 2 else [0, 1], sum(s) <= 2))
         for s in shapes]
    r += [("steps-" + k, lambda sx, k=k: steps(sx, 2 if q and k != "harmonize" else 3, k)) for k in ("log", "trace", "event", "str", "harmonize")]
    r += [("single-" + k, lambda sx, k=k: steps(sx, 3 if q else 4, k, ("event", "str", "harmonize", "emptylog"))) for k in ("event", "str")]
    r += [("large", large), ("many", many), ("again", again), ("order", order)]
    r += [("kind-" + k, lambda sx, k=k: kinds(sx, k)) for k in ("boolean", "discrete", "id", "literal")]
    return r
