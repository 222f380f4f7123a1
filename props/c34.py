"""C34: extensions reported."""
from props.common import cls, attr, factory, put, KINDS, COLLECTIONS
BOUNDS = {"quick": "elements of every type with up to two attributes, each with up to two nested attributes, one of them nested twice more; on every node none, one of two "
                   "standard extensions or one of the user's own; extensions with up to two attributes on each of the four levels, added in any order and queried in between; collections with "
                   "contents nested to depth 3",
          "thorough": "three attributes per element and two levels of two nested attributes each; all kinds of attributes on every node"}
OUTSIDE = "larger elements"
ANY_TEXT = True
ASSUMES = []


def exts(sx):
    return [None, sx.C("extension.std.XConceptExtension")(), sx.C("extension.std.XTimeExtension")(),
            sx.C("extension.XExtension")("Own", "own", sx.parse_uri("http://own.org/own.xesext"))]


def same_set(sx, got, exp, what):
    got = list(got)
    sx.check(len(got) == len(exp), what + ": number")
    for e in exp:
        sx.check(any(g is e for g in got), what + ": each is reported")
        sx.check(e in got, what + ": membership")


def grow(sx, E, owner, shape, name, acc, kind):
    """Attaches attributes: shape = list of shapes of the nested attributes."""
    for i, s in enumerate(shape):
        n = "%s.%d" % (name, i)
        x = sx.choice("x" + n, E)
        k = KINDS[(kind + i) % 8]
        a = attr(sx, "v" + n, k, "k" + n, x, small=True)
        mine = [x] if x is not None else []
        mine += [y for y in grow(sx, E, a, s, n, [], kind + 1) if not any(y is z for z in mine)]
        same_set(sx, a.get_extensions(), uniq(a_below(a)), "an attribute")
        put(owner, a)
        acc += [y for y in mine if not any(y is z for z in acc)]
    return acc


def a_below(el):
    r = []
    for a in el.get_attributes().values():
        if a.get_extension() is not None:
            r.append(a.get_extension())
        r += a_below(a)
    return r


def uniq(xs):
    r = []
    for x in xs:
        if not any(x is y for y in r):
            r.append(x)
    return r


def tree(sx, what, shape, kind):
    f = factory(sx)
    el = f.create_event() if what == "event" else f.create_trace() if what == "trace" else attr(sx, "root", what, "root", small=True)
    E = exts(sx)
    if what == "trace":         # events do not count
        e = f.create_event()
        put(e, cls(sx, "literal")("e", "x", E[3]))
        el.append(e)
    acc = grow(sx, E, el, shape, "n", [], kind)
    same_set(sx, el.get_extensions(), acc, what)
    got = el.get_extensions()
    n = len(got)
    got.clear()
    sx.check(len(el.get_extensions()) == n, "what is handed out can be changed")
    if what in KINDS:
        el2 = cls(sx, what)("own", *([] if what in COLLECTIONS else [el.get_value()]), E[2])
        el2.set_attributes(el.get_attributes())
        same_set(sx, el2.get_extensions(), acc, "its own extension does not count")


def contents(sx, what, coll, deep):
    """What a collection contains counts like nested attributes."""
    f = factory(sx)
    E = exts(sx)
    E = [None, E[1 + deep % 2], E[3]]
    el = f.create_event() if what == "event" else f.create_trace() if what == "trace" else attr(sx, "root", what, "root", small=True)
    acc = []

    def ext(n):
        x = sx.choice(n, E)
        if x is not None and not any(x is y for y in acc):
            acc.append(x)
        return x
    inner = attr(sx, "v0", KINDS[deep], "k0", ext("x0"), small=True)
    put(inner, attr(sx, "v1", "discrete", "k1", ext("x1"), small=True))
    for i in range(deep):
        c = cls(sx, COLLECTIONS[i % 2])("c%d" % i)
        c.add_to_collection(cls(sx, "boolean")("b", True))
        c.add_to_collection(inner)
        inner = c
    box = cls(sx, coll)("box", ext("x2"))
    box.add_to_collection(inner)
    box.add_to_collection(attr(sx, "v3", "literal", "k0", ext("x3")))
    put(box, cls(sx, "literal")("n", "x", ext("x4")))
    put(el, box)
    same_set(sx, el.get_extensions(), acc, what)
    if what in COLLECTIONS:
        el.add_to_collection(cls(sx, "literal")("k", "x", ext("x5")))
        same_set(sx, el.get_extensions(), acc, what + " with contents")


def log(sx, n):
    L = factory(sx).create_log()
    E = exts(sx)
    put(L, cls(sx, "literal")("a", "x", E[1]))
    t = factory(sx).create_trace()
    put(t, cls(sx, "literal")("a", "x", E[2]))
    L.append(t)
    sx.check(len(L.get_extensions()) == 0, "a log reports what was added")
    acc = []
    for i in range(n):
        x = sx.choice("x%d" % i, E[1:])
        L.get_extensions().add(x)
        if not any(x is y for y in acc):
            acc.append(x)
        same_set(sx, L.get_extensions(), acc, "log")
    same_set(sx, L.clone().get_extensions(), acc, "copy of the log")


GET = ["get_log_attributes", "get_trace_attributes", "get_event_attributes", "get_meta_attributes"]


def defined(sx, n):
    x = sx.C("extension.XExtension")("Own", "own", sx.parse_uri("http://own.org/own.xesext"))
    exp = {g: [] for g in GET}
    for i in range(n):
        g = sx.choice("level%d" % i, GET)
        a = cls(sx, ["literal", "discrete"][i == 1])("own:" + sx.str("k%d" % i, [1]), [1, "DEFAULT"][i != 1], x)
        getattr(x, g)().add(a)
        if not any(a == b for b in exp[g]):
            exp[g].append(a)
        allx = []
        for h in GET:
            got = list(getattr(x, h)())
            sx.check(len(got) == len(exp[h]), "attributes of a level")
            for b in exp[h]:
                sx.check(b in getattr(x, h)(), "attribute of its level")
                if not any(b == c for c in allx):
                    allx.append(b)
        if i + 1 == n or sx.choice("ask%d" % i, [1, 0]):
            d = x.get_defined_attributes()
            sx.check(len(d) == len(allx), "number of attributes defined")
            for b in allx:
                sx.check(b in d, "an attribute defined")
            d.clear()
            sx.check(len(x.get_defined_attributes()) == len(allx), "what is handed out can be changed")


STD = {"XConceptExtension": ["concept:name", "concept:instance"], "XTimeExtension": ["time:timestamp"]}


def std(sx):
    v = sx.str("v", [0, 1])
    for n, keys in STD.items():
        x = sx.C("extension.std." + n)()
        d = x.get_defined_attributes()
        sx.check(sorted(a.get_key() for a in d) == sorted(keys), "attributes of " + n)
        sx.check(len(d) == len(keys) and all(a.get_extension() is x for a in d), "belong to " + n)
        sx.check((v in [a.get_key() for a in d]) == (v in keys), "nothing else")


def scenarios(tier):
    q = tier == "quick"
    shapes = [[], [[]], [[], []], [[[]], []], [[[], []]], [[[[[]]]]], [[[[]]], []]]
    if not q:
        shapes += [[[], [], []], [[[], []], [[], []]], [[[[]], []], []], [[[[[[]]]]]]]
    r = []
    for w in ["event", "trace"] + KINDS:
        for i, s in enumerate(shapes):
            for k in range(1 if q else 8):
                r.append(("tree-%s-%d-%d" % (w, i, k), lambda sx, w=w, s=s, k=k: tree(sx, w, s, 3 * k + i)))
        r += [("contents-%s-%s-%d" % (w, c, d), lambda sx, w=w, c=c, d=d: contents(sx, w, c, d)) for c in COLLECTIONS for d in ((0, 1, 2) if w in ("event", "list") or not q else (1,))]
    r += [("log-%d" % n, lambda sx, n=n: log(sx, n)) for n in range(4)]
    r += [("defined-%d" % n, lambda sx, n=n: defined(sx, n)) for n in range(1, 4 if q else 5)]
    r.append(("std", std))
    return r
