"""C40: milliseconds."""
from props.common import cls
BOUNDS = {"quick": "all instants of the years 1 to 9999 to the microsecond, without offset and with every whole-minute offset within a day, and offsets with seconds; all "
                   "milliseconds of these years", "thorough": "the same, and all sequences of two of the setters"}
OUTSIDE = "instants before the year 1 or after 9999 in UTC when they are set from milliseconds (they cannot be represented)"
ANY_TEXT = True
ASSUMES = []
LO, HI = -62135596800000, 253402300799999


def epoch(sx):
    return sx.mk_datetime(1970, 1, 1, tz=sx.mk_zone(0))


def check_millis(sx, a, v):
    ms = a.get_value_millis()
    d = sx.delta_us(v, epoch(sx)) - 1000 * ms
    sx.check(sx.both(d >= 0, d < 1000), "whole milliseconds since 1970, rounded down")
    sx.check(isinstance(ms, int) or type(ms).__name__ == "SymInt", "a whole number")
    return ms


def utc(sx, v):
    return v.replace(tzinfo=sx.mk_zone(0)) if v.utcoffset() is None else v


def get(sx, how, **kw):
    v = sx.datetime("v", **kw)
    if how == "new":
        a = cls(sx, "timestamp")("k", v)
    else:
        a = cls(sx, "timestamp")("k", sx.mk_datetime(2000, 1, 1, tz=sx.mk_zone(60)))
        a.set_value(v)
    check_millis(sx, a, utc(sx, v))
    sx.check(a.get_value() == v and a.get_value().utcoffset() == v.utcoffset(), "asking does not change the value")


def put(sx, how):
    ms = sx.int("ms", LO, HI)
    if how == "new":
        a = cls(sx, "timestamp")("k", ms)
    else:
        a = cls(sx, "timestamp")("k", sx.mk_datetime(2000, 1, 1, 0, 0, 0, 999999, tz=sx.mk_zone(60)))
        a.set_value_millis(ms)
    v = a.get_value()
    sx.check(a.get_value_millis() == ms, "the same milliseconds are read")
    sx.check(sx.delta_us(v, epoch(sx)) == 1000 * ms, "exactly that instant")
    sx.check(v.utcoffset() == epoch(sx).utcoffset(), "in UTC")
    b = a.clone()
    sx.check(b.get_value_millis() == ms, "milliseconds of a copy")


def both(sx, first):
    """An instant, set on another attribute by its milliseconds, is the same to the millisecond."""
    v = sx.datetime("v", fields=True, off_fixed=first)
    sx.assume(sx.both(v.year > 1, v.year < 9999))
    a = cls(sx, "timestamp")("k", v)
    b = cls(sx, "timestamp")("k", a.get_value_millis())
    d = sx.delta_us(v, b.get_value())
    sx.check(sx.both(d >= 0, d < 1000), "same instant to the millisecond")
    sx.check(b.get_value_millis() == a.get_value_millis(), "same milliseconds")


def order(sx):
    """Milliseconds keep the order of instants."""
    v, w = sx.datetime("v", off=(-1439, 1439)), sx.datetime("w", off=(-1439, 1439))
    a, b = cls(sx, "timestamp")("k", v), cls(sx, "timestamp")("k", w)
    if sx.delta_us(v, w) >= 0:
        sx.check(a.get_value_millis() >= b.get_value_millis(), "order")
    if sx.delta_us(v, w) >= 1000:
        sx.check(a.get_value_millis() > b.get_value_millis(), "strict order")


def history(sx, ops):
    a = cls(sx, "timestamp")("k", 0)
    exp = epoch(sx)
    for i, o in enumerate(ops):
        if o == "value":
            exp = sx.datetime("v%d" % i, narrow=True, off_fixed=90, fields=True)
            a.set_value(exp)
            check_millis(sx, a, exp)
        else:
            ms = sx.int("m%d" % i, LO, HI)
            a.set_value_millis(ms)
            sx.check(a.get_value_millis() == ms, "milliseconds after setting")


def scenarios(tier):
    r = []
    for how in ("new", "set"):
        r += [("get-aware-" + how, lambda sx, how=how: get(sx, how, off=(-1439, 1439))), ("get-naive-" + how, lambda sx, how=how: get(sx, how, aware=False)),
              ("get-seconds-" + how, lambda sx, how=how: get(sx, how, sec_off=True, off=(-86399, 86399))), ("put-" + how, lambda sx, how=how: put(sx, how))]
    r += [("both%d" % o, lambda sx, o=o: both(sx, o)) for o in (0, 90, -210, 1439, -1439)]
    r.append(("order", order))
    n = 2 if tier == "quick" else 3
    import itertools
    for k in range(1, n + 1):
        for ops in itertools.product(("value", "millis"), repeat=k):
            r.append(("history-" + "-".join(ops), lambda sx, ops=ops: history(sx, ops)))
    return r
