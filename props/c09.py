"""C09: ordered insertion."""
from props.common import factory, attr, put
BOUNDS = {"quick": "a sorted trace of up to 24 events with arbitrary timestamps (one insertion); histories of 6 insertions; "
                   "traces with events without timestamp of up to 6 events",
          "thorough": "40 events; histories of 7 insertions; 8 events"}
OUTSIDE = "longer traces; naive timestamps"
ASSUMES = []


def ev(sx, ts):
    e = factory(sx).create_event()
    if ts is not None:
        put(e, sx.C("model.XAttributeTimestamp")("time:timestamp", ts))
    return e


def ts(e):
    a = e.get_attributes().get("time:timestamp")
    return a.get_value() if a is not None else None


def unchanged_rest(sx, t, before, e, i):
    sx.check(len(t) == len(before) + 1, "one event more")
    sx.check(sx.both(i >= 0, i < len(t)), "the index is a position")
    sx.check(t[i] is e, "the returned index is the event's")
    rest = [x for j, x in enumerate(t) if j != i]
    sx.check(len(rest) == len(before) and all(x is y for x, y in zip(rest, before)), "the other events keep their order")


def step(sx, n):
    t = factory(sx).create_trace()
    k = sx.choice("n", range(n + 1))
    times = [sx.datetime("t%d" % i) for i in range(k)]
    for x, y in zip(times, times[1:]):
        sx.assume(x <= y)
    for x in times:
        t.append(ev(sx, x))
    before = list(t)
    new = sx.datetime("new")
    e = ev(sx, new)
    i = t.insert_ordered(e)
    unchanged_rest(sx, t, before, e, i)
    for j in range(len(t) - 1):
        sx.check(ts(t[j]) <= ts(t[j + 1]), "the trace stays sorted")
    if i + 1 < len(t):
        sx.check(new < ts(t[i + 1]), "after the events of the same time")
    sx.observe("index", i)


def history(sx, n):
    t = factory(sx).create_trace()
    es = [ev(sx, sx.datetime("t%d" % i, off_fixed=0)) for i in range(n)]
    for e in es:
        t.insert_ordered(e)
    sx.check(len(t) == n, "every event is in the trace")
    for j in range(n - 1):
        sx.check(ts(t[j]) <= ts(t[j + 1]), "sorted")
        a, b = es.index(t[j]), es.index(t[j + 1])
        if a > b:
            sx.check(ts(t[j]) < ts(t[j + 1]), "events of the same time keep their order of insertion")
    for e in es:
        sx.check(e in t, "every event is in the trace")


def untimed(sx, n):
    t = factory(sx).create_trace()
    k = sx.choice("n", range(n + 1))
    for i in range(k):
        t.append(ev(sx, sx.datetime("t%d" % i) if sx.choice("has%d" % i, [0, 1]) else None))
    before = list(t)
    timed = sx.choice("timed", [0, 1])
    e = ev(sx, sx.datetime("new") if timed else None)
    i = t.insert_ordered(e)
    unchanged_rest(sx, t, before, e, i)
    if not timed:
        sx.check(i == k, "an event without timestamp goes to the end")


def scenarios(tier):
    q = tier == "quick"
    return [("step", lambda sx: step(sx, 24 if q else 40)), ("history", lambda sx: history(sx, 6 if q else 7)),
            ("untimed", lambda sx: untimed(sx, 6 if q else 8))]
