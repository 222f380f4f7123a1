"""C11: class identities."""
from props.common import VALUE_KINDS, KINDS, attr, factory, put, cls
BOUNDS = {"quick": "1 to 4 keys, any subset of the attributes present, two events at a time; texts of length 0 to 3 (one key: also 60), truth "
                   "values, integers, timestamps, identifiers as values; keys of length 0 to 2",
          "thorough": "as quick with 5 and 6 keys and texts of length 0 to 5"}
OUTSIDE = "the digits of floating point values (the text is that of str); values that contain the separator may make identities coincide"
ANY_TEXT = True
ASSUMES = []


def event(sx, name, keys, kinds, present, n):
    e = factory(sx).create_event()
    put(e, cls(sx, "literal")("noise", "x"))
    texts = []
    for i, k in enumerate(keys):
        if present[i]:
            a = attr(sx, "%s%d" % (name, i), kinds[i], k, n=n) if kinds[i] == "literal" else \
                attr(sx, "%s%d" % (name, i), kinds[i], k, small=True)
            put(e, a)
            texts.append(a.get_value() if kinds[i] == "literal" else str(a))
        else:
            texts.append("")
    return e, texts


def expected(texts):
    t = texts[0]
    for x in texts[1:]:
        t = t + "&&" + x
    return t


def identity(sx, nkeys, kinds, n):
    C = sx.C("classification.XEventAttributeClassifier")
    keys = ["b key", "a", "c:x", "", "d", "A"][:nkeys]
    c = C("c", list(keys))
    pa = [sx.choice("pa%d" % i, [0, 1]) for i in range(nkeys)]
    pb = [sx.choice("pb%d" % i, [0, 1]) for i in range(nkeys)] if nkeys <= 3 else pa
    a, ta = event(sx, "a", keys, kinds, pa, n)
    b, tb = event(sx, "b", keys, kinds, pb, n)
    ia, ib = c.get_class_identity(a), c.get_class_identity(b)
    sx.check(ia == expected(ta), "identity is the texts of the values in order of the keys")
    sx.check(ib == expected(tb), "identity of the other event")
    sx.check(c.same_event_class(a, b) == (ia == ib), "same class exactly with the same identity")
    sx.check(c.same_event_class(a, a), "an event is in its own class")
    if sx.both(*[x == y for x, y in zip(ta, tb)]):
        sx.check(c.same_event_class(a, b), "events that agree on all keys are in the same class")
    sx.check(c.get_class_identity(a) == ia, "the identity is stable")
    sx.observe("identity", ia)


def anykey(sx, nkeys):
    """Arbitrary keys: equal, unequal, and keys of other attributes."""
    C = sx.C("classification.XEventAttributeClassifier")
    keys = [sx.str("k%d" % i, [0, 1, 2]) for i in range(nkeys)]
    e = factory(sx).create_event()
    other = sx.str("other", [0, 1, 2])
    put(e, attr(sx, "v", "literal", other, n=[0, 1, 2]))
    texts = [e.get_attributes()[other].get_value() if k == other else "" for k in keys]
    sx.check(C("c", keys).get_class_identity(e) == expected(texts), "identity under arbitrary keys")


def kind(sx, k):
    """The text of a value of any kind, with one, two and three keys."""
    C = sx.C("classification.XEventAttributeClassifier")
    e = factory(sx).create_event()
    a = attr(sx, "v", k, "k", small=k == "timestamp")
    if k in ("list", "container"):
        a.add_to_collection(attr(sx, "c", "literal", "x"))
    put(e, a)
    t = str(a)
    sx.check(C("c", ["k"]).get_class_identity(e) == t, "one key")
    sx.check(C("c", ["k", "z"]).get_class_identity(e) == t + "&&", "two keys")
    sx.check(C("c", ["z", "k"]).get_class_identity(e) == "&&" + t, "two keys, second")
    sx.check(C("c", ["z", "k", "k"]).get_class_identity(e) == "&&" + t + "&&" + t, "three keys")


def standard(sx):
    """The predefined classifiers use the standard keys."""
    e = factory(sx).create_event()
    v = {}
    for k in ("concept:name", "org:resource", "lifecycle:transition"):
        if sx.choice("has" + k, [0, 1]):
            a = attr(sx, k, "literal", k, n=[0, 1, 2])
            put(e, a)
            v[k] = a.get_value()
        else:
            v[k] = ""
    sx.check(sx.C("classification.XEventNameClassifier")().get_class_identity(e) == v["concept:name"], "name")
    sx.check(sx.C("classification.XEventResourceClassifier")().get_class_identity(e) == v["org:resource"], "resource")
    sx.check(sx.C("classification.XEventLifeTransClassifier")().get_class_identity(e) == v["lifecycle:transition"], "transition")
    sx.check(sx.C("info.XLogInfo").STANDARD_CLASSIFIER.get_class_identity(e) ==
             v["concept:name"] + "&&" + v["lifecycle:transition"], "standard classifier")
    N = sx.C("classification.XEventNameClassifier")()
    sx.check(N.name() == "Event Name" and list(N.get_defining_attribute_keys()) == ["concept:name"], "name and key")


def empty(sx):
    """A value that is empty or false is a value."""
    C = sx.C("classification.XEventAttributeClassifier")
    e = factory(sx).create_event()
    put(e, cls(sx, "boolean")("b", False), cls(sx, "discrete")("i", 0), cls(sx, "continuous")("f", 0.0), cls(sx, "literal")("s", ""))
    sx.check(C("c", ["b"]).get_class_identity(e) == str(e.get_attributes()["b"]), "false")
    sx.check(C("c", ["i"]).get_class_identity(e) == "0", "zero")
    sx.check(C("c", ["b", "i"]).get_class_identity(e) == str(e.get_attributes()["b"]) + "&&0", "false and zero")
    sx.check(C("c", ["s", "i", "f"]).get_class_identity(e) == "&&0&&0.0", "empty, zero and zero")


def changed(sx, n, nkeys):
    """The identity of an event is that of its attributes now, whatever it was when it was asked for before."""
    C = sx.C("classification.XEventAttributeClassifier")
    keys = ["k", "l"][:nkeys]
    c, d = C("c", list(keys)), C("d", ["l", "k"])
    e, g = factory(sx).create_event(), factory(sx).create_event()
    v = [attr(sx, "v%d" % i, "literal", "k", n=[0, 1]) for i in range(2)]
    put(e, v[0])
    put(g, cls(sx, "literal")("k", "fixed"))
    first = v[0].get_value()
    tail = "&&" if nkeys == 2 else ""
    sx.check(c.get_class_identity(e) == first + tail, "identity at first")
    sx.check(d.get_class_identity(e) == "&&" + first, "identity for another classifier")
    how = sx.choice("how", ["value", "replace", "remove", "map", "other"])
    now = v[1].get_value()
    if how == "value":
        v[0].set_value(now)
    elif how == "replace":
        put(e, v[1])
    elif how == "remove":
        del e.get_attributes()["k"]
        now = ""
    elif how == "map":
        m = g.get_attributes()
        e.set_attributes(m)
        now = "fixed"
    else:
        put(e, cls(sx, "literal")("l", now))
    one, two = (first, now) if how == "other" else (now, "")
    sx.check(c.get_class_identity(e) == (one + "&&" + two if nkeys == 2 else one), "identity after a change")
    sx.check(d.get_class_identity(e) == two + "&&" + one, "identity for another classifier after a change")
    sx.check(c.get_class_identity(g) == "fixed" + tail, "identity of another event")
    sx.check(c.same_event_class(e, g) == (c.get_class_identity(e) == c.get_class_identity(g)), "same class after a change")
    copy = e.clone()
    put(copy, cls(sx, "literal")("k", "copied"))
    sx.check(c.get_class_identity(copy) == ("copied&&" + two if nkeys == 2 else "copied"), "identity of a copy")
    sx.check(c.get_class_identity(e) == (one + "&&" + two if nkeys == 2 else one), "identity after a copy was changed")


def scenarios(tier):
    q = tier == "quick"
    n = [0, 1, 3] if q else [0, 1, 2, 3, 4, 5]
    r = [("literal-1", lambda sx: identity(sx, 1, ["literal"], n)), ("literal-long", lambda sx: identity(sx, 1, ["literal"], [60])),
         ("literal-2", lambda sx: identity(sx, 2, ["literal"] * 2, n)), ("literal-2-long", lambda sx: identity(sx, 2, ["literal"] * 2, [30])),
         ("literal-3", lambda sx: identity(sx, 3, ["literal"] * 3, [0, 1]), {"weight": 2}),
         ("literal-4", lambda sx: identity(sx, 4, ["literal"] * 4, [0, 1]), {"weight": 2}),
         ("mixed-2", lambda sx: identity(sx, 2, ["discrete", "boolean"], n)),
         ("mixed-3", lambda sx: identity(sx, 3, ["id", "timestamp", "discrete"], n)),
         ("mixed-4", lambda sx: identity(sx, 4, ["boolean", "literal", "discrete", "literal"], [1])),
         ("standard", standard), ("empty", empty)]
    r += [("changed-%d" % i, lambda sx, i=i: changed(sx, n, i)) for i in (1, 2)]
    r += [("keys-%d" % i, lambda sx, i=i: anykey(sx, i)) for i in (1, 2, 3)]
    r += [("kind-" + k, lambda sx, k=k: kind(sx, k)) for k in KINDS if k != "continuous"]
    if not q:
        r += [("literal-5", lambda sx: identity(sx, 5, ["literal"] * 5, [0, 1]), {"weight": 3}),
              ("literal-6", lambda sx: identity(sx, 6, ["literal"] * 6, [1]), {"weight": 3}), ("keys-4", lambda sx: anykey(sx, 4))]
    return r
