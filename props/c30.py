"""C30: lifecycle transitions."""
from props.common import factory, put, cls
BOUNDS = {"quick": "every case variant of the thirteen names with up to four characters of any white space on both sides; the names with one character replaced, "
                   "inserted or removed; all texts of length 0 to 10",
          "thorough": "all texts of length 0 to 12; up to six characters of white space"}
OUTSIDE = "letters outside ASCII whose lower case is an ASCII letter (Kelvin sign, dotted I)"
ASSUMES = []
NAMES = ["schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete", "autoskip",
         "manualskip", "unknown"]


def event(sx, t=None):
    e = factory(sx).create_event()
    put(e, cls(sx, "literal")("lifecycle:transitions", "start"))
    if t is not None:
        put(e, cls(sx, "literal")("lifecycle:transition", t))
    return e


def blank(sx, name, lens):
    s = sx.str(name, lens, ws=True)
    for c in s:
        sx.assume(c.isspace())
    return s


def cased(sx, n, name="c"):
    t = ""
    for i, c in enumerate(n):
        t = t + (sx.str("%s%d" % (name, i), [1], chars=c + c.upper()) if c.isalpha() else c)
    return t


def std(sx, n, m):
    L = sx.C("extension.std.XLifecycleExtension")()
    t = blank(sx, "pre", [0, m]) + cased(sx, n) + blank(sx, "post", [0, m])
    sx.check(L.extract_standard_transition(event(sx, t)) == n, "every spelling of a standard transition decodes to it")
    sx.check(L.StandardModel().decode(t) == n, "decoding the text")
    e = event(sx)
    sx.check(L.extract_standard_transition(e) is None, "an event without transition")
    L.assign_standard_transition(e, t)
    sx.check(L.extract_standard_transition(e) == n and L.extract_transition(e) == n, "setting a standard transition")
    a = e.get_attributes()["lifecycle:transition"]
    sx.check(a.get_value() == n and a.get_extension() is L, "as the attribute of the extension")
    sx.check(e.get_attributes()["lifecycle:transitions"].get_value() == "start" and len(e.get_attributes()) == 2, "other attributes stay")


def strip(s):
    a, b = 0, len(s)
    while a < b and s[a].isspace():
        a += 1
    while b > a and s[b - 1].isspace():
        b -= 1
    return s[a:b]


def spelled(sx, t):
    """The standard transition that the text spells, or unknown."""
    u = strip(t)
    for n in NAMES:
        if len(n) == len(u) and sx.both(*[sx.either(x == y, x == y.upper()) for x, y in zip(u, n)]):
            return n
    return "unknown"


def check_decode(sx, t):
    L = sx.C("extension.std.XLifecycleExtension")()
    exp = spelled(sx, t)
    sx.check(L.extract_standard_transition(event(sx, t)) == exp, "decodes to what it spells, or unknown")
    e = event(sx)
    L.assign_standard_transition(e, t)
    sx.check(L.extract_standard_transition(e) == exp, "set and read")
    e = event(sx)
    L.assign_transition(e, t)
    if len(strip(t)):
        sx.check(L.extract_standard_transition(e) == exp, "set as text and decoded")
    else:
        sx.check(L.extract_standard_transition(e) is None, "blank text sets nothing")


ASCII = "".join(chr(c) for c in range(32, 127)) + "\t"


def near(sx, n):
    k = sx.choice("pos", list(range(len(n) + 1)))
    c = sx.str("c", [1], chars=ASCII)
    check_decode(sx, n[:k] + c + n[k + 1:])
    check_decode(sx, n[:k] + c + n[k:])
    check_decode(sx, n[:k] + n[k + 1:])


def anytext(sx, n):
    check_decode(sx, sx.str("t", [n], chars=ASCII))


def model(sx, lens):
    L = sx.C("extension.std.XLifecycleExtension")()
    log = factory(sx).create_log()
    sx.check(sx.no(L.uses_standard_model(log)), "a log without model does not use the standard model")
    m = sx.str("m", lens, ws=True)
    put(log, cls(sx, "literal")("lifecycle:model", m))
    sx.check(L.uses_standard_model(log) == (strip(m) == "standard"), "exactly the standard model")
    log = factory(sx).create_log()
    L.assign_model(log, m)
    sx.check(L.uses_standard_model(log) == (strip(m) == "standard"), "exactly the standard model, when it was set")


def names(sx):
    M = sx.C("extension.std.XLifecycleExtension").StandardModel()
    sx.check(sorted(M.values()) == sorted(NAMES), "the thirteen transitions")
    L = sx.C("extension.std.XLifecycleExtension")()
    a = [x for x in L.get_log_attributes() if x.get_key() == "lifecycle:model"]
    sx.check(len(a) == 1 and a[0].get_value() == "standard", "the model attribute of the extension")
    sx.check(L.extract_standard_transition(event(sx)) is None, "no transition")


def scenarios(tier):
    q = tier == "quick"
    r = [("names", names)]
    r += [("std-" + n, lambda sx, n=n: std(sx, n, 4 if q else 6)) for n in NAMES]
    r += [("near-" + n, lambda sx, n=n: near(sx, n)) for n in NAMES]
    r += [("any-%d" % n, lambda sx, n=n: anytext(sx, n)) for n in range(11 if q else 13)]
    r += [("model-%d" % n, lambda sx, n=n: model(sx, [n])) for n in (1, 4, 7, 8, 9, 10)]
    return r
