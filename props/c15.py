"""C15: attribute statistics."""
from props.common import KINDS, VALUE_KINDS, COLLECTIONS, attr, cls, value
BOUNDS = {"quick": "sequences of up to 4 registrations with arbitrary keys of length 0 to 2 (and long keys that differ in one character), every pair of kinds, "
                   "no extension or one of two; one queried key",
          "thorough": "sequences of up to 5 registrations"}
OUTSIDE = "longer sequences (frequencies of up to 30 registrations are checked for one and two keys)"
ANY_TEXT = True
ASSUMES = []


def verify(sx, info, regs, query):
    """regs: (key, kind, extension) in order."""
    first = []
    for k, kind, ext in regs:
        if not sx.either(*[k == f[0] for f in first]):
            first.append((k, kind, ext))
    keys = list(info.get_attribute_keys())
    sx.check(len(keys) == len(first), "one entry per key")
    atts = list(info.get_attributes())
    sx.check(len(atts) == len(first), "one prototype per key")
    for k, kind, ext in first:
        sx.check(sx.either(*[k == x for x in keys]), "every key is listed")
        n = sum(1 if k == r[0] else 0 for r in regs)
        sx.check(info.get_frequency(k) == n, "frequency")
        sx.check(info.get_relative_frequency(k) == n / len(regs), "relative frequency")
        mine = [a for a in atts if a.get_key() == k]
        sx.check(len(mine) == 1, "the prototype has the key")
        sx.check(type(mine[0]) is cls(sx, kind), "the prototype is of the kind first registered")
        sx.check(info.get_frequency(mine[0]) == n, "frequency by attribute")
        sx.check(info.get_relative_frequency(mine[0]) == n / len(regs), "relative frequency by attribute")
    if not sx.either(*[query == f[0] for f in first]):
        sx.check(info.get_frequency(query) == 0, "frequency of an unknown key")
        sx.check(info.get_relative_frequency(query) == 0, "relative frequency of an unknown key")
        sx.check(info.get_frequency(cls(sx, "literal")(query, "x")) == 0, "frequency of an unknown attribute")
    for kind in KINDS:
        exp = [f[0] for f in first if f[1] == kind]
        check_keys(sx, info.get_keys_for_type(cls(sx, kind)), exp, "keys of a kind")
        check_keys(sx, [a.get_key() for a in info.get_attributes_for_type(cls(sx, kind))], exp, "prototypes of a kind")
    exts = [None]
    for _, _, e in regs:
        if e is not None and not [x for x in exts if x is e]:
            exts.append(e)
    for e in exts:
        exp = [f[0] for f in first if f[2] is e]
        check_keys(sx, info.get_keys_for_extension(e), exp, "keys of an extension")
        check_keys(sx, [a.get_key() for a in info.get_attributes_for_extension(e)], exp, "prototypes of an extension")
        for a in info.get_attributes_for_extension(e):
            sx.check(a.get_extension() is e, "extension of the prototype")
    exp = [f[0] for f in first if f[2] is None]
    check_keys(sx, info.get_keys_without_extension(), exp, "keys without extension")
    check_keys(sx, [a.get_key() for a in info.get_attributes_without_extension()], exp, "prototypes without extension")
    other = sx.C("extension.std.XSemanticExtension")()
    if not [x for x in exts if x is other]:
        sx.check(len(info.get_attributes_for_extension(other)) == 0 and len(info.get_keys_for_extension(other)) == 0, "nothing of an unused extension")


def check_keys(sx, got, exp, what):
    got = list(got)
    sx.check(len(got) == len(exp), what + ": number")
    for k in exp:
        sx.check(sx.either(*[k == g for g in got]), what + ": there")


def run(sx, regs, query):
    info = sx.C("info.XAttributeInfo")()
    for i, (k, kind, ext) in enumerate(regs):
        info.register(attr(sx, "v%d" % i, kind, k, ext, small=True))
    verify(sx, info, regs, query)


def exts(sx):
    return [None, sx.C("extension.std.XConceptExtension")(), sx.C("extension.std.XTimeExtension")()]


def seq(sx, kinds, lens):
    es = exts(sx)
    run(sx, [(sx.str("k%d" % i, lens), k, es[sx.choice("x%d" % i, [0, 1, 2])]) for i, k in enumerate(kinds)], sx.str("q", lens))


def keyed(sx, n):
    run(sx, [(sx.str("k%d" % i, [0, 1]), "literal", None) for i in range(n)], sx.str("q", [0, 1]))


def long(sx):
    pre = "a rather long key of an attribute of the log: "
    run(sx, [(pre + sx.str("k%d" % i, [1]) + " end", ["literal", "discrete", "id"][i], None) for i in range(3)], pre + " end")


def between(sx, kinds):
    """Everything is asked for after every registration."""
    info, es, regs = sx.C("info.XAttributeInfo")(), exts(sx), []
    q = sx.str("q", [1])
    for i, kind in enumerate(kinds):
        k = sx.str("k%d" % i, [1]) if i < 3 else "z"
        a = attr(sx, "v%d" % i, kind, k, es[(2 * i + 1) % 3], small=True)
        a.get_attributes()["n"] = cls(sx, "literal")("n", "nested")
        if kind in COLLECTIONS:
            a.add_to_collection(cls(sx, "literal")("c", "content"))
        info.register(a)
        regs.append((k, kind, es[(2 * i + 1) % 3]))
        verify(sx, info, regs, q)
        for e in es:
            for p in info.get_attributes_for_extension(e):
                sx.check(p is not a, "prototypes are not what was registered")
        for p in list(info.get_attributes()) + list(info.get_attributes_for_type(cls(sx, kind))) + list(info.get_attributes_without_extension()):
            sx.check(p is not a, "prototypes are not what was registered")
        sx.check(len(a.get_attributes()) == 1, "what was registered keeps what is nested in it")


def many(sx):
    """Thirty registrations of two keys, in an order given by a symbolic position."""
    info = sx.C("info.XAttributeInfo")()
    p = sx.str("p", [1, 2])
    n = 0
    for i in range(30):
        info.register(cls(sx, "discrete")("ab" if i % 7 == 3 else p, i))
        n += i % 7 == 3
    if p == "ab":
        sx.check(info.get_frequency(p) == 30 and info.get_relative_frequency(p) == 1.0, "frequency of thirty")
    else:
        sx.check(info.get_frequency("ab") == n and info.get_frequency(p) == 30 - n, "frequencies of thirty")
        sx.check(info.get_relative_frequency("ab") == n / 30 and info.get_relative_frequency(p) == (30 - n) / 30, "relative frequencies of thirty")


def empty(sx):
    info, q = sx.C("info.XAttributeInfo")(), sx.str("q", [0, 1, 2])
    sx.check(info.get_frequency(q) == 0 and info.get_relative_frequency(q) == 0, "nothing registered: frequencies")
    sx.check(len(info.get_attributes()) == 0 and len(info.get_attribute_keys()) == 0, "nothing registered: keys")
    for k in KINDS:
        sx.check(len(info.get_keys_for_type(cls(sx, k))) == 0, "nothing registered: kinds")
    for e in exts(sx):
        sx.check(len(info.get_keys_for_extension(e)) == 0, "nothing registered: extensions")


def scenarios(tier):
    q = tier == "quick"
    r = [("empty", empty), ("long", long), ("many", many)]
    r += [("keys-%d" % n, lambda sx, n=n: keyed(sx, n)) for n in range(1, 5 if q else 6)]
    r += [("between-" + a, lambda sx, a=a, b=b: between(sx, [a, b, a, "literal"])) for a, b in zip(KINDS, KINDS[3:] + KINDS[:3])]
    for i, a in enumerate(KINDS):
        for b in KINDS[i:]:
            r.append(("pair-%s-%s" % (a, b), lambda sx, a=a, b=b: seq(sx, [a, b], [0, 1, 2])))
    for i, a in enumerate(KINDS):
        t = [a, KINDS[(i + 3) % 8], a if i % 2 else KINDS[(i + 5) % 8]]
        r.append(("three-" + a, lambda sx, t=t: seq(sx, t, [0, 1])))
    if not q:
        r += [("four-" + a, lambda sx, a=a: seq(sx, [a, "literal", a, "id"], [1])) for a in KINDS]
    return r
