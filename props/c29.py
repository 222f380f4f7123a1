"""C29: timers."""
BOUNDS = {"quick": "all sequences of up to 6 operations (start, stop, ask) with arbitrary non-decreasing clock readings in microseconds over 60 years; all whole durations "
                   "from 0 to 10^6 days in milliseconds",
          "thorough": "all sequences of up to 7 operations"}
OUTSIDE = "rounding of clock readings as floating point numbers (durations are compared within 0.01 ms); texts of durations that are not whole"
ASSUMES = ["time.time() does not run backwards"]


def near(sx, a, us):
    d = a * 1000 - us
    return sx.both(d < 10, d > -10)


def history(sx, n, first):
    sx.clock_range()
    t = sx.C("utils.XTimer")()
    clk = sx.clock_values
    sx.check(len(clk()) >= 1, "creation reads the clock")
    start, stop = clk()[-1], None
    for i in range(n):
        op = first if i == 0 else sx.choice("op%d" % i, ["start", "stop", "ask"])
        k = len(clk())
        if op == "start":
            t.start()
            sx.check(len(clk()) > k, "starting reads the clock")
            start, stop = clk()[-1], None
        elif op == "stop":
            t.stop()
            sx.check(len(clk()) > k, "stopping reads the clock")
            stop = clk()[-1]
        else:
            d = t.get_duration()
            if stop is None:
                sx.check(len(clk()) > k, "the duration of a running timer reads the clock")
                sx.check(near(sx, d, clk()[-1] - start), "duration of a running timer")
            else:
                sx.check(near(sx, d, stop - start), "duration of a stopped timer")
            sx.check(d * 1000 > -10, "never negative")
    d = t.get_duration()
    sx.check(near(sx, d, (clk()[-1] if stop is None else stop) - start), "duration at the end")


UNITS = [("days", 86400000), ("hours", 3600000), ("minutes", 60000), ("seconds", 1000), ("milliseconds", 1)]


def text(sx, lo, hi):
    """The numbers in the text add up, each of a unit that occurs once, in order, and below the next larger unit."""
    T = sx.C("utils.XTimer")
    ms = sx.int("ms", lo, hi)
    s = T.format_duration(ms)
    total, last, seen = 0, -1, []
    for part in s.split(", "):
        words = part.split(" ")
        sx.check(len(words) == 2, "parts of number and unit")
        i = [k for k, (u, _) in enumerate(UNITS) if u == words[1]]
        sx.check(len(i) == 1, "known unit")
        sx.check(i[0] > last, "units in order, each once")
        n = int(words[0])
        sx.check(n >= 0, "no negative number")
        total = total + n * UNITS[i[0]][1]
        if i[0] > 0 and seen:
            sx.check(n * UNITS[i[0]][1] <= UNITS[seen[-1]][1], "no more than the next larger unit named")
        last = i[0]
        seen.append(i[0])
    sx.check(total == ms, "the parts add up to the duration")
    sx.check(last == 4, "milliseconds are named")
    for k, (u, w) in enumerate(UNITS[:4]):
        if ms > w and not [j for j in seen if j <= k]:
            sx.fail("a unit smaller than the duration is missing: " + u)


def string(sx):
    """The text of a timer is that of its duration (the clock stands still here)."""
    t = sx.C("utils.XTimer")()
    if sx.bool("stop"):
        t.stop()
    sx.check(t.get_duration_string() == t.format_duration(t.get_duration()), "text of the timer")


def scenarios(tier):
    q = tier == "quick"
    r = [("history-" + o, lambda sx, o=o: history(sx, 6 if q else 7, o)) for o in ("start", "stop", "ask")]
    r += [("string", string)]
    D = 86400000
    cuts = [0, 1000, 60000, 600000, 3600000, 36000000, D, 10 * D, 100 * D, 1000 * D, 10 ** 4 * D, 10 ** 5 * D, 10 ** 6 * D]
    r += [("text-%d" % b, lambda sx, a=a, b=b: text(sx, a, b)) for a, b in zip(cuts, cuts[1:])]
    return r
