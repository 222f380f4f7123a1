"""C48: summaries survive writing and reading."""
from props.common import KINDS, attr, cls, put, factory, write_log, read_log, large_log
from props.c14 import build, NAME, RES, TRANS, TIME
BOUNDS = {"quick": "logs of up to 3 events in every division into up to 3 traces with names, resources, transitions (length 0 to 1) and times (of three offsets) present or "
                   "missing; further attributes of every kind on every level, with the same or another key, nested twice; both forms of XES files; a log of 40 traces, 60 events in one of them, 40 attributes and 30 levels",
          "thorough": "logs of up to 4 events; texts of length 0 to 2"}
OUTSIDE = "extensions of attributes that were not made with the extension of their key"
ASSUMES = ["ElementTree, minidom and expat behave as modelled in symx/xmlstub.py (checked on witnesses at every run)"]


def same_classes(sx, a, b, what):
    sx.check(a is not None and b is not None, what + ": there")
    x, y = list(a.get_classes()), list(b.get_classes())
    sx.check(len(x) == len(y), what + ": number of classes")
    for k in x:
        o = b.get_by_index(k.get_index())
        sx.check(o is not None and o.get_id() == k.get_id() and o.size() == k.size(), what + ": identity and size")


def same_bounds(sx, a, b, what):
    sx.check((a is None) == (b is None), what + ": there")
    if a is None:
        return
    for x, y in ((a.get_start_date(), b.get_start_date()), (a.get_end_date(), b.get_end_date())):
        sx.check((x is None) == (y is None), what + ": missing")
        if x is not None:
            d = sx.delta_us(x, y)
            sx.check(sx.both(d > -1000, d < 1000), what + ": to the millisecond")


def same_info(sx, a, b, what):
    ka, kb = list(a.get_attribute_keys()), list(b.get_attribute_keys())
    sx.check(len(ka) == len(kb), what + ": number of keys")
    for k in ka:
        sx.check(sx.either(*[k == j for j in kb]), what + ": keys")
        sx.check(a.get_frequency(k) == b.get_frequency(k), what + ": frequency")
        sx.check(a.get_relative_frequency(k) == b.get_relative_frequency(k), what + ": relative frequency")
    for n in KINDS:
        t = cls(sx, n)
        x, y = a.get_keys_for_type(t), b.get_keys_for_type(t)
        sx.check(len(x) == len(y), what + ": keys of a type")


def compare(sx, log, gz, classifier=None):
    p = write_log(sx, log, "a.xes" + (".gz" if gz else ""), "data_out.XesXmlGZIPSerializer" if gz else "data_out.XesXmlSerializer")
    if gz:
        with sx.open(p, "r") as f:
            back = sx.C("data_in.XesXmlGZIPParser")().parse(f)[0]
    else:
        back = read_log(sx, p)
    X = sx.C("info.XLogInfo")
    i, j = X.create(log, classifier), X.create(back, classifier)
    sx.check(i.get_number_of_traces() == j.get_number_of_traces() == len(log), "number of traces")
    sx.check(i.get_number_of_event() == j.get_number_of_event(), "number of events")
    same_classes(sx, i.get_event_classes(), j.get_event_classes(), "default classes")
    same_classes(sx, i.get_name_classes(), j.get_name_classes(), "names")
    same_classes(sx, i.get_resource_classes(), j.get_resource_classes(), "resources")
    same_classes(sx, i.get_transition_classes(), j.get_transition_classes(), "transitions")
    same_bounds(sx, i.get_log_time_boundaries(), j.get_log_time_boundaries(), "bounds of the log")
    for t, u in zip(log, back):
        same_bounds(sx, i.get_trace_time_boundaries(t), j.get_trace_time_boundaries(u), "bounds of a trace")
    for n in ("log", "trace", "event", "meta"):
        same_info(sx, getattr(i, "get_%s_attribute_info" % n)(), getattr(j, "get_%s_attribute_info" % n)(), n + " attributes")


def when(sx, name, n):
    return sx.mk_datetime(2020, 2, 28, sx.int(name + "h", 10, 19), sx.int(name + "m", 10, 59), sx.int(name + "s", 10, 59),
                          sx.int(name + "us", 0, 999999), tz=sx.mk_zone([90, -480, 0][n % 3]))


def times(sx, shape):
    f = factory(sx)
    log = f.create_log()
    n = 0
    for i in shape:
        t = f.create_trace()
        log.append(t)
        put(t, cls(sx, "literal")(NAME, "t%d" % n))
        for _ in range(i):
            e = f.create_event()
            t.append(e)
            if sx.choice("p%d" % n, [1, 0]):
                put(e, cls(sx, "timestamp")(TIME, when(sx, "t%d" % n, n)))
            n += 1
    return log, None


def std(sx, shape, keys, gz, lens):
    log, _ = build(sx, shape, lambda k, t, i: k in keys and (k == keys[0] or sx.choice("p%s%d.%d" % (k, t, i), [1, 0])), lens) if TIME not in keys else times(sx, shape)
    compare(sx, log, gz, sx.C("classification.XEventAttributeClassifier")("c", list(keys)) if keys and TIME not in keys else None)


def other(sx, kind, level, gz):
    f = factory(sx)
    log = f.create_log()
    for i in range(2):
        t = f.create_trace()
        log.append(t)
        put(t, cls(sx, "literal")(NAME, "t%d" % i))
        for j in range(2):
            t.append(f.create_event())
    k, l = sx.str("k", [1]), sx.str("l", [1])
    x, y = {"log": (log, log), "trace": (log[0], log[1]), "event": (log[0][0], log[1][1])}[level]
    nxt = KINDS[(KINDS.index(kind) + 3) % 8]
    for n, (e, key) in enumerate(((x, k), (y, l))):
        a = attr(sx, "v%d" % n, kind if n == 0 else "literal", key, small=True)
        b = attr(sx, "n%d" % n, nxt, k if n else "n", small=True)
        c = attr(sx, "d%d" % n, "discrete", l, small=True)
        if nxt not in ("list", "container"):
            put(b, c)
        if type(a).__name__ not in ("XAttributeList", "XAttributeContainer"):
            put(a, b)
        put(e, a)
    compare(sx, log, gz)


def large(sx, gz):
    log = large_log(sx, traces=40, events=60, attrs=40, lists=False)
    put(log[0], cls(sx, "timestamp")("seen", when(sx, "w", 1)))
    put(log[len(log) // 2][13], cls(sx, "timestamp")(TIME, when(sx, "t", 1)))
    put(log[len(log) // 2][13], cls(sx, "literal")(NAME, sx.str("n", [1])))
    put(log[len(log) // 2][13], cls(sx, "literal")(RES, "res " + sx.str("r", [1])))
    compare(sx, log, gz)


def scenarios(tier):
    q = tier == "quick"
    lens = (0, 1) if q else (0, 1, 2)
    shapes = [[], [0], [1], [2], [1, 1], [0, 1], [1, 0, 2], [3]] + ([] if q else [[2, 2], [1, 1, 2], [4]])
    r = [("large-%d" % g, lambda sx, g=g: large(sx, g)) for g in (0, 1)]
    for i, s in enumerate(shapes):
        for j, keys in enumerate([[NAME], [RES, NAME], [TRANS, NAME], [TIME]]):
            n = lens if sum(s) < 3 or len(keys) < 2 else (1,)
            r.append(("std-%s-%d" % ("".join(map(str, s)), j), lambda sx, a=(s, keys, (i + j) % 2, n): std(sx, *a)))
    for i, k in enumerate(KINDS):
        for j, lv in enumerate(("log", "trace", "event")):
            r.append(("other-%s-%s" % (k, lv), lambda sx, a=(k, lv, (i + j) % 2): other(sx, *a)))
    return r
