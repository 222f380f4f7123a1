"""C49: reading and writing settle after one round."""
from props.common import large_log, KINDS, COLLECTIONS, write_log, read_log
from props.c27 import A, att, low, BAD, CASES
from props.c46 import same_log
from props.c43 import same_xml
BOUNDS = {"quick": "documents not written by the library with an attribute of every kind on every level and in globals, with all the notations of C27, nested in and around "
                   "others of every kind; missing keys and values, invalid dates, unknown elements, tags in three case variants, any order of the parts; three rounds; a document of 130 traces, 270 events in one of them, 30 levels",
          "thorough": "the same with texts of length 0 to 4"}
OUTSIDE = "documents that the reader refuses; texts whose characters XML cannot carry; the order of the extension elements"
ASSUMES = ["xml.sax, ElementTree and minidom behave as modelled in symx/xmlstub.py (checked on witnesses at every run)"]


def settle(sx, tree):
    p = sx.path("doc.xes")
    sx.write_xml(p, tree)
    rounds(sx, p)


def rounds(sx, p):
    a = read_log(sx, p)
    pa = write_log(sx, a, "a.xes")
    b = read_log(sx, pa)
    pb = write_log(sx, b, "b.xes")
    c = read_log(sx, pb)
    x, y = sx.read_xml(pa), sx.read_xml(pb)
    for t in (x, y):
        t[3].sort(key=lambda n: (0, dict(n[1])["prefix"]) if n[0] == "extension" else (1, ""))
    same_xml(sx, x, y, "document written again after reading")
    same_log(sx, b, c, "log read again")
    sx.check(len(a) == len(b), "traces")
    for t, u in zip(a, b):
        sx.check(len(t) == len(u) and len(t.get_attributes()) == len(u.get_attributes()), "events and attributes of traces")


def big(sx):
    rounds(sx, write_log(sx, large_log(sx), "big.xes"))


def doc(sx, a, level, case=str, more=()):
    f = A("literal", "f", "fix", None).xml(case)
    on = {k: [f] for k in ("log", "trace", "event", "gt", "ge")}
    on[level] = [f, a, A("discrete", "after", "7", 7).xml(case)]
    ev = (case("event"), {}, on["event"], None)
    kids = list(more) + [(case("extension"), {"name": "Time", "prefix": "time", "uri": "http://www.xes-standard.org/time.xesext"}, [], None),
                         (case("global"), {"scope": "event"}, on["ge"], None), (case("classifier"), {"name": "n m", "keys": "k  'l m' a"}, [], None)]
    kids += [(case("trace"), {}, on["trace"] + [ev, (case("event"), {}, [], None)], None)] + on["log"]
    kids += [(case("trace"), {}, [ev, f], None), (case("global"), {"scope": "trace"}, on["gt"], None)]
    return (case("log"), {"xes.version": "0.9", "openxes.version": "x"}, kids, None)


def kinds(sx, kind, level, lens):
    a = att(sx, "a", kind, sx.choice("p", ["", "time:", "x:"]) + sx.str("key", [0, 1]), [att(sx, "n", KINDS[(KINDS.index(kind) + 3) % 8], few=True).xml(low),
                                                                                    A("literal", "m", "1", None).xml(low)], lens)
    settle(sx, doc(sx, a.xml(low), level))


def nested(sx, outer, inner, level):
    a = att(sx, "a", inner, few=True)
    for i in range(3):
        a = att(sx, "o%d" % i, outer if i % 2 == 0 else KINDS[(KINDS.index(outer) + 1) % 8], kids=[A("literal", "f1", "1", None), a, A("literal", "f2", "2", None)], few=True, lens=(1,))
    settle(sx, doc(sx, a.xml(low), level))


def odd(sx, level, c):
    case = CASES[c]
    what = sx.choice("what", ["nokey", "novalue", "bad", "badnested", "unknown"])
    s = sx.str("s", [0, 1, 2])
    n = A("literal", "n", s, s).xml(case)
    a = {"nokey": (case("string"), {"value": s}, [n], None), "novalue": (case("string"), {"key": s}, [n], None),
         "bad": (case("date"), {"key": s, "value": "no"}, [n], None),
         "badnested": (case("string"), {"key": "o", "value": s}, [(case("list"), {"key": "l"}, [n, (case("date"), {"key": "d", "value": ""}, [n], None), n], None), n], None),
         "unknown": (case("string"), {"key": "o", "value": s}, [("strange", {"key": s}, [], "text"), n], None)}[what]
    settle(sx, doc(sx, a, level, case, [("other", {"a": s}, [], None), (case("extension"), {"name": "none", "prefix": "zz", "uri": "http://no"}, [], None)]))


def scenarios(tier):
    lens = (0, 1, 2) if tier == "quick" else (0, 1, 2, 3, 4)
    lv = ["log", "trace", "event", "gt", "ge"]
    r = [("big", big)]
    for i, k in enumerate(KINDS):
        for l in lv:
            r.append(("kinds-%s-%s" % (k, l), lambda sx, a=(k, l): kinds(sx, *a, lens)))
        for j, m in enumerate(KINDS):
            r.append(("nested-%s-%s" % (k, m), lambda sx, a=(k, m, lv[(i + j) % 5]): nested(sx, *a)))
    for l in lv:
        for c in CASES:
            r.append(("odd-%s-%s" % (l, c), lambda sx, a=(l, c): odd(sx, *a)))
    return r
