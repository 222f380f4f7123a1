"""C19: time extension."""
from props.common import factory, put, cls
BOUNDS = "all instants of years 1 to 9999 in microseconds with any whole-minute offset under a day or offsets in seconds, naive dates, all milliseconds of these years; " \
         "up to three settings in a row on two events with other attributes or none"
OUTSIDE = "dates that are not in the years 1 to 9999 in UTC when given in milliseconds"
ASSUMES = ["datetime behaves as modelled in symx/dt.py (checked on witnesses at every run)"]
LO, HI = -62135596800000, 253402300799999


def val(sx, name, kind):
    if kind == "millis":
        return sx.int(name, LO, HI)
    if kind == "naive":
        return sx.datetime(name, aware=False)
    if kind == "seconds":
        return sx.datetime(name, sec_off=True)
    return sx.datetime(name)


def epoch(sx):
    return sx.mk_datetime(1970, 1, 1, tz=sx.mk_zone(0))


def check_date(sx, t, e, v, kind):
    got = t.extract_timestamp(e)
    sx.check(got is not None, "the timestamp is readable")
    if kind == "millis":
        sx.check(got.utcoffset() is not None and str(got.utcoffset()) == "0:00:00", "milliseconds are read in UTC")
        sx.check(sx.delta_us(got, epoch(sx)) == v * 1000, "the instant of the milliseconds")
    else:
        sx.check(got == v, "the instant")
        sx.check((got.utcoffset() is None) == (kind == "naive"), "with or without offset as it was set")
        if kind != "naive":
            sx.check(got.utcoffset() == v.utcoffset(), "the offset")
        sx.check(sx.both(got.year == v.year, got.month == v.month, got.day == v.day, got.hour == v.hour, got.minute == v.minute,
                         got.second == v.second, got.microsecond == v.microsecond), "all fields")
    a = e.get_attributes().get("time:timestamp")
    sx.check(a is not None and type(a) is cls(sx, "timestamp") and a.get_key() == "time:timestamp", "under the standard key")
    sx.check(a.get_extension() is t, "with the extension")


def one(sx, kind, kind2):
    t = sx.C("extension.std.XTimeExtension")()
    e, o = factory(sx).create_event(), factory(sx).create_event()
    k = sx.str("k", [0, 1])
    b = sx.choice("carries", [1, 0])
    if b:
        put(e, cls(sx, "literal")(k, "x"))
    sx.check(t.extract_timestamp(e) is None, "nothing before it is set")
    v = val(sx, "v", kind)
    t.assign_timestamp(e, v)
    check_date(sx, t, e, v, kind)
    sx.check(t.extract_timestamp(o) is None, "other events are not affected")
    w = val(sx, "w", kind2)
    t.assign_timestamp(o, w)
    check_date(sx, t, e, v, kind)
    check_date(sx, t, o, w, kind2)
    t.assign_timestamp(e, w)
    check_date(sx, t, e, w, kind2)
    sx.check(len(e.get_attributes()) == 1 + b and (not b or e.get_attributes()[k].get_value() == "x"), "other attributes stay as they were")


def read(sx, kind):
    t = sx.C("extension.std.XTimeExtension")()
    e = factory(sx).create_event()
    v = val(sx, "v", kind)
    put(e, cls(sx, "timestamp")("time:timestamp", v))
    got = t.extract_timestamp(e)
    sx.check(sx.delta_us(got, epoch(sx)) == v * 1000 if kind == "millis" else got == v, "an existing timestamp is read as it is")


def scenarios(tier):
    ks = ["millis", "naive", "seconds", "aware"]
    return [("one-%s-%s" % (a, b), lambda sx, a=a, b=b: one(sx, a, b)) for a in ks for b in ks] + \
           [("read-" + k, lambda sx, k=k: read(sx, k)) for k in ks]
