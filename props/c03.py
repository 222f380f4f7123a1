"""C03: the text of a timestamp denotes its instant."""
BOUNDS = ("every instant of the years 1 to 9999 in microseconds, every whole-minute offset within a day, naive timestamps, offsets of "
          "named zones; offsets with seconds within an hour in the years 2 to 9998")
OUTSIDE = "zones whose offset depends on the date"
ASSUMES = ["datetime, timedelta, timezone and strptime behave as modelled in symx/dt.py (checked on witnesses at every run)"]


def digits(sx, t, lo, hi, v, what):
    """Characters lo..hi of the text are the decimal digits of v."""
    sx.check(t[lo:hi].isdigit(), what + " in digits")
    sx.check(int(t[lo:hi]) == v, what)


def both_ways(sx, d, off):
    TS = sx.C("model.XAttributeTimestamp")
    parse = sx.mod("opyenxes.utils.XsDateTimeConversion").parse_date_time
    t = str(TS("k", d))
    sx.check(t[4:5] == "-" and t[7:8] == "-" and t[10:11] == "T" and t[13:14] == ":" and t[16:17] == ":" and t[19:20] == ".",
             "punctuation of xs:dateTime")
    for lo, hi, v, w in ((0, 4, d.year, "year"), (5, 7, d.month, "month"), (8, 10, d.day, "day"), (11, 13, d.hour, "hour"),
                         (14, 16, d.minute, "minute"), (17, 19, d.second, "second"), (20, 23, d.microsecond // 1000, "milliseconds")):
        digits(sx, t, lo, hi, v, w)
    z = t[23:]
    if off is None or off == 0:
        sx.check(z == "Z", "Z without offset")
    else:
        sx.check(len(z) == 6, "length of the offset")
        sx.check((z[0:1] == "-") == (off < 0), "sign of the offset")
        sx.check(sx.either(z[0:1] == "-", z[0:1] == "+"), "sign of the offset")
        sx.check(z[3:4] == ":", "colon in the offset")
        a = -off if off < 0 else off
        digits(sx, z, 1, 3, a // 60, "hours of the offset")
        digits(sx, z, 4, 6, a % 60, "minutes of the offset")
    r = parse(t)
    sx.check(r is not None, "the text is read")
    if r is not None:
        sx.check(r.utcoffset() == sx.mk_zone(off or 0).utcoffset(None), "offset read back")
        sx.check(sx.both(r.year == d.year, r.month == d.month, r.day == d.day, r.hour == d.hour, r.minute == d.minute,
                         r.second == d.second, r.microsecond == d.microsecond // 1000 * 1000), "instant read back")
    sx.observe("text", t)


def aware(sx, lo, hi):
    off = sx.int("off", lo, hi)
    d = sx.datetime("d", aware=False, fields=True)
    both_ways(sx, d.replace(tzinfo=sx.mk_zone(off)), off)


def ordinal(sx, lo, hi):
    """Days counted from year 1, so that the calendar of the reader and of the text are compared."""
    d = sx.datetime("d", off=(lo, hi))
    t = str(sx.C("model.XAttributeTimestamp")("k", d))
    r = sx.mod("opyenxes.utils.XsDateTimeConversion").parse_date_time(t)
    sx.check(r is not None, "the text is read")
    us = sx.delta_us(d.replace(tzinfo=None), r.replace(tzinfo=None))
    sx.check(sx.both(us >= 0, us < 1000), "instant read back")
    sx.check(r.utcoffset() == d.utcoffset(), "offset read back")


def odd(sx):
    """An offset with seconds (local mean time) is written as one of whole minutes, of the same instant."""
    d = sx.datetime("d", sec_off=True, ymin=2, ymax=9998, off=(-60, 60))
    t = str(sx.C("model.XAttributeTimestamp")("k", d))
    r = sx.mod("opyenxes.utils.XsDateTimeConversion").parse_date_time(t)
    sx.check(r is not None, "the text is read")
    us = sx.delta_us(d, r)
    sx.check(sx.both(us >= 0, us < 1000), "instant read back")
    us = sx.delta_us(d.replace(tzinfo=None), r.replace(tzinfo=None))
    sx.check(sx.both(us > -60 * 10 ** 6, us < 60 * 10 ** 6 + 1000), "about the wall clock time")


def naive(sx):
    both_ways(sx, sx.datetime("d", aware=False, fields=True), None)


def named(sx):
    """Zones with a name print their offset, not the name."""
    off = sx.choice("off", [-720, -210, -60, 0, 330, 840])
    d = sx.datetime("d", aware=False, fields=True, ymin=1900, ymax=2100)
    both_ways(sx, d.replace(tzinfo=sx.mk_zone(off, sx.choice("name", ["EST", "UTC", "+05:00", ""]) or "X")), off)


def change(sx):
    """The text follows the value."""
    TS = sx.C("model.XAttributeTimestamp")
    a, b = [sx.datetime(n, aware=False, fields=True, narrow=True) for n in "ab"]
    x = TS("k", a)
    s = str(x)
    x.set_value(b)
    sx.check(str(x) == str(TS("other", b)), "the text is that of the new value")
    x.set_value(a)
    sx.check(str(x) == s, "the text is that of the old value again")


def scenarios(tier):
    r = [("aware-%d" % i, lambda sx, lo=lo, hi=hi: aware(sx, lo, hi)) for i, (lo, hi) in enumerate(
        [(-840, -600), (-599, -1), (0, 0), (1, 599), (600, 840)])]
    r += [("ordinal", lambda sx: ordinal(sx, -60, 60)), ("naive", naive), ("odd", odd), ("named", named), ("change", change)]
    r += [("aware-day-neg", lambda sx: aware(sx, -1439, -841)), ("aware-day-pos", lambda sx: aware(sx, 841, 1439)),
          ("ordinal-all", lambda sx: ordinal(sx, -1439, 1439))]
    return r
