"""C10: time bounds."""
from props.common import factory, put, cls
BOUNDS = {"quick": "up to 4 dates; all pairs of registrations out of dates, events with or without timestamp, bounds of up to 2 dates "
                   "and nothing, and all triples without bounds of 0 or 2 dates (these without the queried date); years 1 to 9999 in "
                   "microseconds, whole-minute offsets within 14 hours; one queried date; 16 dates of which one is arbitrary",
          "thorough": "up to 6 dates, all triples of registrations, and all quadruples without the queried date"}
OUTSIDE = "mixtures of dates with and without offset"
ASSUMES = ["datetime comparison behaves as modelled in symx/dt.py (checked on witnesses at every run)"]


KINDS = ["date", "event", "bare", "bounds0", "bounds1", "bounds2", "none"]


def date(sx, name, aware=True):
    return sx.datetime(name, off=(-840, 840)) if aware else sx.datetime(name, aware=False)


def event(sx, d, i):
    e = factory(sx).create_event()
    put(e, cls(sx, "literal")("concept:name", "e%d" % i))
    if d is not None:
        put(e, cls(sx, "timestamp")("time:timestamp", d))
    return e


def verify(sx, b, ds, aware, within=True):
    lo, hi = b.get_start_date(), b.get_end_date()
    q = date(sx, "q", aware) if within or not ds else None
    if not ds:
        sx.check(lo is None and hi is None, "no bounds without dates")
        sx.check(sx.no(b.is_within(q)), "nothing is within no bounds")
        return
    sx.check(lo is not None and hi is not None, "bounds with dates")
    for d in ds:
        sx.check(lo <= d, "start is not after any registered date")
        sx.check(d <= hi, "end is not before any registered date")
    sx.check(sx.either(*[lo == d for d in ds]), "start is one of the registered dates")
    sx.check(sx.either(*[hi == d for d in ds]), "end is one of the registered dates")
    if within:
        sx.check(b.is_within(q) == sx.both(lo <= q, q <= hi), "within exactly between start and end")
        for d in ds:
            sx.check(b.is_within(d), "registered dates are within")
    sx.observe("bounds", [lo, hi])


def dates(sx, n, aware):
    TB = sx.C("info.XTimeBounds")
    b = TB()
    ds = [date(sx, "d%d" % i, aware) for i in range(n)]
    for d in ds:
        b.register(d)
    verify(sx, b, ds, aware)


def large(sx, n, at):
    """Many dates in a fixed mixed order, one of them arbitrary, by events and bounds."""
    TB = sx.C("info.XTimeBounds")
    b, ds = TB(), []
    for i in range(n):
        d = date(sx, "d") if i == at else sx.mk_datetime(2020, 1 + (i * 7) % 12, 1 + (i * 5) % 28, (i * 3) % 24, tz=sx.mk_zone(60 * (i % 5) - 120))
        ds.append(d)
        if i % 3 == 0:
            b.register(d)
        elif i % 3 == 1:
            b.register(event(sx, d, i))
        else:
            o = TB()
            o.register(d)
            b.register(o)
    verify(sx, b, ds, True)


def mixed(sx, n, first, kinds, within):
    TB = sx.C("info.XTimeBounds")
    b, ds = TB(), []
    for i in range(n):
        k = first if i == 0 else sx.choice("k%d" % i, kinds)
        new = [date(sx, "d%d.%d" % (i, j)) for j in range({"date": 1, "event": 1, "bounds1": 1, "bounds2": 2}.get(k, 0))]
        ds += new
        if k == "date":
            b.register(new[0])
        elif k in ("event", "bare"):
            b.register(event(sx, new[0] if new else None, i))
        elif k == "none":
            b.register(None)
        else:
            o = TB()
            for d in new:
                o.register(d)
            b.register(o)
            if new:
                sx.check(sx.either(*[o.get_start_date() == d for d in new]), "the other bounds are unchanged")
            else:
                sx.check(o.get_start_date() is None, "the other bounds are unchanged")
    verify(sx, b, ds, True, within)


def scenarios(tier):
    q = tier == "quick"
    r = [("dates-%d" % n, lambda sx, n=n: dates(sx, n, True)) for n in range(0, 5 if q else 7)]
    r += [("naive", lambda sx: dates(sx, 3, False))]
    r += [("large-%d" % k, lambda sx, k=k: large(sx, 16, k)) for k in (0, 7, 15)]
    few = ["date", "event", "bare", "bounds1", "none"]
    r += [("mixed-" + k, lambda sx, k=k: mixed(sx, 2 if q else 3, k, KINDS, True)) for k in KINDS]
    r += [("three-" + k, lambda sx, k=k: mixed(sx, 3 if q else 4, k, few, False)) for k in few]
    return r
