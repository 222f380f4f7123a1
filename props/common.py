"""Shared pieces of the scenarios: building attributes of every kind from symbolic values."""

VALUE_KINDS = ["literal", "boolean", "continuous", "discrete", "timestamp", "id"]
COLLECTIONS = ["list", "container"]
KINDS = VALUE_KINDS + COLLECTIONS
CLASS = {"literal": "XAttributeLiteral", "boolean": "XAttributeBoolean", "continuous": "XAttributeContinuous",
         "discrete": "XAttributeDiscrete", "timestamp": "XAttributeTimestamp", "id": "XAttributeID",
         "list": "XAttributeList", "container": "XAttributeContainer"}


def cls(sx, kind):
    return sx.C("model." + CLASS[kind])


def factory(sx):
    return sx.C("factory.XFactoryRegistry")().current_default()


def value(sx, name, kind, n=None, nan=False, small=False, **kw):
    """A symbolic value of the kind; small: from a range that needs few case distinctions."""
    if small:
        n = n or [1]
        if kind == "discrete":
            return sx.int(name, 0, 9)
        if kind == "timestamp":
            return sx.datetime(name, fields=True, narrow=True, off_fixed=90)
        if kind == "continuous":
            return sx.float(name, finite=True)
    if kind == "literal":
        return sx.str(name, n or [0, 2], **kw)
    if kind == "boolean":
        return sx.bool(name)
    if kind == "continuous":
        return sx.float(name, nan=nan)
    if kind == "discrete":
        return sx.int(name, -10 ** 18, 10 ** 18)
    if kind == "timestamp":
        return sx.datetime(name, **kw)
    return sx.C("id.XID")(sx.uuid(name))


def attr(sx, name, kind, key, ext=None, val=None, **kw):
    """An attribute of the kind with the key and a symbolic value."""
    if kind in COLLECTIONS:
        return cls(sx, kind)(key, ext)
    return cls(sx, kind)(key, value(sx, name, kind, **kw) if val is None else val, ext)


def same_value(sx, kind, a, b):
    """Whether two values of the kind are the same (as a condition)."""
    if kind == "continuous":
        return sx.same_float(a, b)
    if kind == "id":
        return a.get_uuid() == b.get_uuid()
    return a == b


def check_same(sx, a, b, what, path="", text_ms=False):
    """Checks that two attributes are the same in kind, key, value and everything nested in them."""
    sx.check(type(a) is type(b), what + ": kind" + path)
    sx.check(a.get_key() == b.get_key(), what + ": key" + path)
    kind = [k for k in KINDS if type(a).__name__ == CLASS[k]][0]
    if kind in COLLECTIONS:
        ca, cb = a.get_collection(), b.get_collection()
        sx.check(len(ca) == len(cb), what + ": collection size" + path)
        for i, (x, y) in enumerate(zip(ca, cb)):
            check_same(sx, x, y, what, path + "[%d]" % i, text_ms)
    elif kind == "timestamp" and text_ms:
        check_ms(sx, a.get_value(), b.get_value(), what + ": instant" + path)
    else:
        sx.check(same_value(sx, kind, a.get_value(), b.get_value()), what + ": value" + path)
    check_same_map(sx, a, b, what, path, text_ms)


def check_same_map(sx, a, b, what, path="", text_ms=False):
    """Checks that two elements carry the same attributes, in the same order."""
    ma, mb = a.get_attributes(), b.get_attributes()
    sx.check(len(ma) == len(mb), what + ": number of attributes" + path)
    for x, y in zip(list(ma.values()), list(mb.values())):
        check_same(sx, x, y, what, path + "/", text_ms)
    for k in list(ma.keys()):
        sx.check(k in mb, what + ": attribute found under its key" + path)


def check_ms(sx, a, b, msg):
    """b is a, truncated to milliseconds."""
    d = sx.delta_us(a, b)
    sx.check(sx.both(d >= 0, d < 1000), msg)
    sx.check(b.microsecond % 1000 == 0, msg + " (whole milliseconds)")


def check_wall(sx, a, b, msg):
    """b shows the wall clock of a, truncated to milliseconds."""
    sx.check(sx.both(a.year == b.year, a.month == b.month, a.day == b.day, a.hour == b.hour, a.minute == b.minute,
                     a.second == b.second, b.microsecond == a.microsecond // 1000 * 1000), msg)


def kind_of(a):
    return [k for k in KINDS if type(a).__name__ == CLASS[k]][0]


def snap(a):
    """What an attribute says now, taken without the code under test's copying."""
    k = kind_of(a)
    v = None
    if k == "id":
        v = a.get_value().get_uuid()
    elif k not in COLLECTIONS:
        v = a.get_value()
    return (type(a), a.get_key(), a.get_extension(), k, v, snap_map(a),
            [snap(x) for x in a.get_collection()] if k in COLLECTIONS else [])


def snap_map(e):
    return [(k, snap(a)) for k, a in list(e.get_attributes().items())]


def check_snap(sx, s, a, what):
    sx.check(type(a) is s[0], what + ": kind")
    sx.check(a.get_key() == s[1], what + ": key")
    sx.check(a.get_extension() is s[2], what + ": extension")
    if s[3] == "continuous":
        sx.check(sx.same_float(a.get_value(), s[4]), what + ": value")
    elif s[3] == "id":
        sx.check(a.get_value().get_uuid() == s[4], what + ": value")
    elif s[3] not in COLLECTIONS:
        sx.check(a.get_value() == s[4], what + ": value")
    check_snap_map(sx, s[5], a, what)
    if s[3] in COLLECTIONS:
        now = list(a.get_collection())
        sx.check(len(now) == len(s[6]), what + ": number of contents")
        for x, y in zip(s[6], now):
            check_snap(sx, x, y, what + ": contents")


def check_snap_map(sx, s, e, what):
    now = list(e.get_attributes().items())
    sx.check(len(now) == len(s), what + ": number of attributes")
    for (k, x), (l, y) in zip(s, now):
        sx.check(k == l, what + ": order of attributes")
        check_snap(sx, x, y, what)


def put(element, *attributes):
    for a in attributes:
        element.get_attributes()[a.get_key()] = a


# ---------------------------------------------------------------- files
def write_log(sx, log, name, serializer="data_out.XesXmlSerializer", in_bytes=None):
    """Writes the log and returns the path."""
    p = sx.path(name)
    s = sx.C(serializer)()
    if in_bytes is None:
        with sx.open(p, "w") as f:
            s.serialize(log, f)
    else:
        with sx.open(p, "wb" if in_bytes else "w") as f:
            s.serialize(log, f, in_bytes)
    return p


def read_log(sx, path, parser="data_in.XesXmlParser"):
    logs = sx.C(parser)().parse(path)
    sx.check(len(logs) == 1, "one log is read")
    return logs[0]


def check_read(sx, a, b, what, path=""):
    """b is what should be read back for attribute a: contents stand for the nested attributes of collections."""
    sx.check(type(a) is type(b), what + ": kind" + path)
    sx.check(a.get_key() == b.get_key(), what + ": key" + path)
    kind = [k for k in KINDS if type(a).__name__ == CLASS[k]][0]
    if kind in COLLECTIONS:
        ca, cb = list(a.get_collection()), list(b.get_collection())
        sx.check(len(ca) == len(cb), what + ": collection size" + path)
        for i, (x, y) in enumerate(zip(ca, cb)):
            check_read(sx, x, y, what, path + "[%d]" % i)
        return
    if kind == "timestamp":
        x, y = a.get_value(), b.get_value()
        if x.utcoffset() is None:
            x = x.replace(tzinfo=y.tzinfo)
            sx.check(y.utcoffset() == sx.mk_zone(0).utcoffset(None), what + ": UTC" + path)
        else:
            sx.check(x.utcoffset() == y.utcoffset(), what + ": offset" + path)
        check_wall(sx, x, y, what + ": instant" + path)
    else:
        sx.check(same_value(sx, kind, a.get_value(), b.get_value()), what + ": value" + path)
    check_read_map(sx, a, b, what, path)


def check_read_map(sx, a, b, what, path=""):
    ma, mb = a.get_attributes(), b.get_attributes()
    sx.check(len(ma) == len(mb), what + ": number of attributes" + path)
    for x, y in zip(list(ma.items()), list(mb.items())):
        sx.check(x[0] == y[0], what + ": attribute under its key" + path)
        check_read(sx, x[1], y[1], what, path + "/")


def check_read_log(sx, a, b, what):
    check_read_map(sx, a, b, what, " of the log")
    sx.check(len(a) == len(b), what + ": number of traces")
    for i, (t, u) in enumerate(zip(a, b)):
        check_read_map(sx, t, u, what, " of trace %d" % i)
        sx.check(len(t) == len(u), what + ": number of events of trace %d" % i)
        for j, (e, g) in enumerate(zip(t, u)):
            check_read_map(sx, e, g, what, " of event %d of trace %d" % (j, i))


# ---------------------------------------------------------------- large logs
def fixed_value(sx, kind, i):
    """A fixed value of the kind, different for different i."""
    if kind == "literal":
        return "text %d" % i
    if kind == "boolean":
        return i % 3 == 0
    if kind == "continuous":
        return i / 4
    if kind == "discrete":
        return i - 3
    if kind == "timestamp":
        return sx.mk_datetime(2020, 1 + i % 12, 1 + i % 28, i % 24, i % 60, 7, 125000, tz=sx.mk_zone(60 * (i % 3)))
    return sx.C("id.XID").parse("00000000-0000-4000-8000-%012x" % (i + 1))


def fixed_attr(sx, kind, key, i, ext=None):
    if kind in COLLECTIONS:
        a = cls(sx, kind)(key, ext)
        for j in range(i % 3):
            a.add_to_collection(fixed_attr(sx, VALUE_KINDS[(i + j) % 6], "item%d" % j, i + j))
        return a
    return cls(sx, kind)(key, fixed_value(sx, kind, i), ext)


def large_log(sx, traces=130, events=270, attrs=110, depth=30, items=270, std=True, deep=True, lists=True, chars=None, empty=True):
    """A log with many traces, events and attributes, deep nesting and a long list: all of fixed values but some at the ends,
    which are arbitrary."""
    f = factory(sx)
    log = f.create_log()

    def many(el, n, off):
        for i in range(n):
            put(el, fixed_attr(sx, (KINDS if lists else VALUE_KINDS)[(i + off) % (8 if lists else 6)], "key%d" % i, i + off))
        put(el, attr(sx, "end%d" % off, "literal", "end", n=[1], chars=chars))
    many(log, attrs, 0)
    for t in range(traces):
        tr = f.create_trace()
        if std:
            put(tr, cls(sx, "literal")("concept:name", "case %d" % t))
        if t == traces - 1:
            many(tr, attrs, 3)
        for i in range(events if t == traces // 2 else 2 if t % 4 else 0 if empty else 1):
            e = f.create_event()
            if std:
                put(e, cls(sx, "literal")("concept:name", "act %d" % (i % 105)))
                put(e, cls(sx, "literal")("org:resource", "res %d" % (i % 13)))
                put(e, cls(sx, "literal")("lifecycle:transition", ["start", "complete"][i % 2]))
                put(e, cls(sx, "timestamp")("time:timestamp", sx.mk_datetime(2020, 1 + t % 12, 1 + (i * 5) % 28, 3, 4, 5, 678000,
                                                                             tz=sx.mk_zone(-90))))
            if i == events - 1:
                many(e, attrs, 5)
                put(e, attr(sx, "last", "discrete", "last", small=True))
            tr.append(e)
        log.append(tr)
    if attrs:
        put(log, cls(sx, "literal")("long " + "key/" * 80, "long text, " * 400 + "its end"))
        put(log, cls(sx, "discrete")("large", -10 ** 40 - 7))
        put(log, cls(sx, "continuous")("tiny", 1.5e-300))
        put(log, cls(sx, "continuous")("huge", -1.5e300))
    if deep:
        a = attr(sx, "deepest", "literal", "deepest", n=[1], chars=chars)
        for i in range(depth):
            o = fixed_attr(sx, VALUE_KINDS[i % 6], "level%d" % i, i)
            put(o, a)
            a = o
        put(log[0], a)
    if lists:
        c = cls(sx, "list")("long")
        for i in range(items):
            c.add_to_collection(fixed_attr(sx, VALUE_KINDS[i % 6], "item%d" % (i % 12), i))
        c.add_to_collection(attr(sx, "tail", "literal", "item0", n=[1], chars=chars))
        put(log, c)
        a = attr(sx, "core", "literal", "core", n=[1], chars=chars)
        for i in range(min(depth, 7)):
            o = cls(sx, COLLECTIONS[i % 2])("box%d" % i)
            o.add_to_collection(a)
            a = o
        put(log, a)
    return log
