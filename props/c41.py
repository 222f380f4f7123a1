"""C41: list and container attributes."""
from props.common import cls, attr, put, KINDS, VALUE_KINDS, COLLECTIONS, check_same
BOUNDS = {"quick": "all sequences of up to 4 additions with arbitrary keys (equal or not, length 0 to 1) and any kinds; collections of 12, 40 and 260 contents; nested collections to depth 3; nested attributes next to "
                   "the contents; texts with texts, integers, truth values, identifiers and instants as values",
          "thorough": "sequences of up to 6 additions, of any three kinds"}
OUTSIDE = "texts of floating point values and of values that contain the separators (they are not escaped)"
ANY_TEXT = True
ASSUMES = []


def check_contents(sx, c, exp, what):
    got = c.get_collection()
    sx.check(len(got) == len(exp), what + ": number")
    for x, y in zip(list(got), exp):
        sx.check(x is y, what + ": in order")



def check_text(sx, c, exp):
    t = "["
    for i, a in enumerate(exp):
        if i:
            t = t + ","
        t = t + a.get_key() + ":" + str(a)
    sx.check(str(c) == t + "]", "the text lists keys and values in order")


def add(sx, coll, kinds, keys):
    c = cls(sx, coll)(sx.str("key", [0, 1]))
    other = cls(sx, coll)("other")
    exp = []
    for i, k in enumerate(kinds):
        a = attr(sx, "v%d" % i, k, sx.str("k%d" % i, [0, 1]) if keys else "k%d" % (i % 2), small=True) if k != "continuous" else cls(
            sx, k)("k%d" % i, sx.choice("v%d" % i, [0.5, -2.0]))
        if k in COLLECTIONS:
            a.add_to_collection(attr(sx, "w%d" % i, "discrete", "w", small=True))
        c.add_to_collection(a)
        exp.append(a)
        check_contents(sx, c, exp, "contents")
        sx.check(len(c.get_attributes()) == 0 and not c.has_attributes(), "contents are not nested attributes")
        sx.check(len(other.get_collection()) == 0, "another one stays empty")
    check_text(sx, c, exp)
    # what is handed out is the caller's
    got = c.get_collection()
    got.append(cls(sx, "literal")("x", "y"))
    check_contents(sx, c, exp, "after adding to what was handed out")
    got = c.get_collection()
    got.clear()
    check_contents(sx, c, exp, "after clearing what was handed out")
    got = c.get_collection()
    got.reverse()
    check_contents(sx, c, exp, "after reversing what was handed out")
    put(c, cls(sx, "literal")("n", "nested"), cls(sx, "discrete")("k0", 1))
    check_contents(sx, c, exp, "with nested attributes")
    sx.check(len(c.get_attributes()) == 2 and c.get_attributes()["k0"].get_value() == 1, "nested attributes")
    check_text(sx, c, exp)
    m = sx.C("model.XAttributeMap")()
    c.set_attributes(m)
    check_contents(sx, c, exp, "with other nested attributes")
    d = c.clone()
    d.add_to_collection(cls(sx, "literal")("x", "y"))
    check_contents(sx, c, exp, "after adding to a copy")
    sx.check(len(d.get_collection()) == len(exp) + 1, "contents of the copy")
    for x, y in zip(exp, d.get_collection()):
        check_same(sx, x, y, "contents of the copy")


def large(sx, coll, n):
    """Many contents; the arbitrary one is anywhere."""
    c = cls(sx, coll)("c")
    other = cls(sx, COLLECTIONS[0 if coll == COLLECTIONS[1] else 1])("other")
    exp, v = [], sx.str("v", [0, 1])
    at = sx.choice("at", [0, n // 2, n - 1])
    for i in range(n):
        a = cls(sx, "literal")("k%d" % (i % 7), v if i == at else "x%d" % i) if i % 3 else cls(sx, "discrete")("d", i)
        if i == at:
            a = cls(sx, "literal")("k", v)
        c.add_to_collection(a)
        exp.append(a)
        if i % 5 == 0 or i > n - 2:
            got = c.get_collection()
            check_contents(sx, c, exp, "contents")
            got.append(a)
            check_contents(sx, c, exp, "after adding to what was handed out")
            c.get_collection().pop()
            c.get_collection().clear()
            check_contents(sx, c, exp, "after clearing what was handed out")
    check_text(sx, c, exp)
    sx.check(len(other.get_collection()) == 0, "another one stays empty")
    d = c.clone()
    sx.check(len(d.get_collection()) == n, "contents of the copy")
    for x, y in zip(exp, d.get_collection()):
        check_same(sx, x, y, "contents of the copy")


def same_twice(sx, coll, n):
    """One attribute several times, and equal attributes."""
    c = cls(sx, coll)("c")
    v, w = sx.str("v", [0, 1]), sx.str("w", [0, 1])
    a, b = cls(sx, "literal")("k", v), cls(sx, "literal")("k", w)
    exp = []
    for i in range(n):
        x = sx.choice("x%d" % i, [0, 1])
        x = a if x else b
        c.add_to_collection(x)
        exp.append(x)
        check_contents(sx, c, exp, "repeated attributes are kept")
    check_text(sx, c, exp)


def change(sx, coll):
    """Contents can be changed in place, and the collection shows it."""
    c = cls(sx, coll)("c")
    a = cls(sx, "literal")("k", "x")
    c.add_to_collection(a)
    v = sx.str("v", [0, 1, 2])
    c.get_collection()[0].set_value(v)
    sx.check(a.get_value() == v and c.get_collection()[0].get_value() == v, "value of a content")
    sx.check(str(c) == "[k:" + v + "]", "text")
    empty = cls(sx, coll)(v)
    sx.check(str(empty) == "[]" and len(empty.get_collection()) == 0, "an empty one")


def deep(sx, coll, depth):
    v = sx.str("v", [0, 1])
    k = sx.int("k", 0, 99)
    c, text = cls(sx, "literal")("x", v), v
    key = "x"
    for i in range(depth):
        n = cls(sx, COLLECTIONS[(COLLECTIONS.index(coll) + i) % 2])("c%d" % i)
        n.add_to_collection(cls(sx, "discrete")("a", k))
        n.add_to_collection(c)
        n.add_to_collection(cls(sx, "boolean")("b", True))
        text = "[a:" + str(k) + "," + key + ":" + text + ",b:true]"
        c, key = n, "c%d" % i
    sx.check(str(c) == text, "text of nested collections")
    for i in range(depth):
        sx.check(len(c.get_collection()) == 3, "contents at every depth")
        c = c.get_collection()[1]
    sx.check(c.get_value() == v, "innermost")


def scenarios(tier):
    q = tier == "quick"
    r = []
    for c in COLLECTIONS:
        r.append(("empty-" + c, lambda sx, c=c: add(sx, c, [], 1)))
        for i, k in enumerate(KINDS):
            r.append(("one-%s-%s" % (c, k), lambda sx, c=c, k=k: add(sx, c, [k], 1)))
            for j, k2 in enumerate(KINDS):
                r.append(("two-%s-%s-%s" % (c, k, k2), lambda sx, c=c, k=k, k2=k2: add(sx, c, [k, k2], 1)))
                for k3 in ([] if q else KINDS):
                    r.append(("three-%s-%s-%s-%s" % (c, k, k2, k3), lambda sx, c=c, k=k, k2=k2, k3=k3: add(sx, c, [k, k2, k3], 0)))
        for n in (3, 4) if q else (3, 4, 5, 6):
            r.append(("many-%s-%d" % (c, n), lambda sx, c=c, n=n: add(sx, c, (["literal", "discrete", "list", "id"] * 2)[:n], 0)))
            r.append(("same-%s-%d" % (c, n), lambda sx, c=c, n=n: same_twice(sx, c, n)))
        r += [("large-%s-%d" % (c, n), lambda sx, c=c, n=n: large(sx, c, n)) for n in (12, 40, 260)]
        r.append(("change-" + c, lambda sx, c=c: change(sx, c)))
        r += [("deep-%s-%d" % (c, d), lambda sx, c=c, d=d: deep(sx, c, d)) for d in (1, 2, 3)]
    return r
