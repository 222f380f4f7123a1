"""C53: log messages reach the listener."""
BOUNDS = {"quick": "all sequences of up to 4 operations (set one of two listeners or none, log with or without importance) on two loggers with arbitrary messages and "
                   "importances of length 0 to 2; the standard importances and the standard listener",
          "thorough": "sequences of up to 6"}
OUTSIDE = "the layout of what the standard listener prints, other than that it contains message and importance"
ANY_TEXT = True
ASSUMES = []
NAMES = ["DEBUG", "INFO", "WARNING", "ERROR"]


class Listener:
    def __init__(self):
        self.got = []

    def log(self, message, importance):
        self.got.append((message, importance))


class Recorder(Listener):
    """One that is a collection of the messages, and so empty at first."""
    def __len__(self):
        return len(self.got)


class Same(Listener):
    """One that equals everything."""
    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False


def history(sx, n, first):
    X = sx.C("log.XLogging")
    logs = [X(), X()]
    ls = [Same() if n == 2 else Listener(), Recorder()]
    cur = [0, 0]  # None: none, 0: the standard one, else one of ours
    for i in (0, 1):
        logs[i].set_listener(ls[0])
        cur[i] = ls[0]
    exp = [[], []]
    for k in range(n):
        op = first if k == 0 else sx.choice("op%d" % k, ["set", "log", "plain"])
        w = sx.choice("w%d" % k, [0, 1])
        if op == "set":
            l = sx.choice("l%d" % k, [None, 0, 1])
            logs[w].set_listener(None if l is None else ls[l])
            cur[w] = None if l is None else ls[l]
        else:
            m = sx.str("m%d" % k, [0, 2])
            if op == "plain":
                logs[w].log(m)
                i = "DEBUG"
            else:
                i = sx.str("i%d" % k, [0, 1]) if sx.choice("std%d" % k, [0, 1]) else getattr(X.Importance, NAMES[k % 4])
                logs[w].log(m, i)
            if cur[w] is not None:
                exp[0 if cur[w] is ls[0] else 1].append((m, i))
        for l, x in zip(ls, exp):
            sx.check(len(l.got) == len(x), "each message once")
            for (a, b), (c, d) in zip(l.got, x):
                sx.check(a == c and b == d, "message and importance")
    sx.check(len(sx.printed()) == 0, "nothing printed")


def standard(sx, how):
    """The standard listener prints each message once."""
    X = sx.C("log.XLogging")
    x = X()
    if how == "given":
        x.set_listener(sx.mod("opyenxes.log.XStdoutLoggingListener").XStdOutLoggingListener())
    for k in range(2):
        m = "<" + sx.str("m%d" % k, [0, 1, 2]) + ">"
        i = sx.choice("i%d" % k, [None] + NAMES)
        n = len(sx.printed())
        x.log(m, i)
        p = sx.printed()[n:]
        text = "\n".join([" ".join(q) for q in p])
        sx.check(len(p) >= 1 and text.count(m) == 1, "the message once")
        sx.check((i or "DEBUG") in text, "its importance")
        sx.check(len([j for j in NAMES if j in text.replace(m, "")]) == 1, "no other importance")
    sx.check([getattr(X.Importance, n) for n in NAMES] == NAMES, "importances")
    n = len(sx.printed())
    x.set_listener(None)
    x.log("m", "ERROR")
    sx.check(len(sx.printed()) == n, "no listener")


def scenarios(tier):
    n = 4 if tier == "quick" else 5
    return [("history-%d-%s" % (k, f), lambda sx, k=k, f=f: history(sx, k, f)) for k in range(1, n + 1) for f in ("set", "log", "plain")] + \
           [("standard-" + h, lambda sx, h=h: standard(sx, h)) for h in ("default", "given")]
