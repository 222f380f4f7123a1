"""C07: equality of attributes."""
from props.common import KINDS, COLLECTIONS, VALUE_KINDS, attr, cls, same_value
BOUNDS = {"quick": "every pair of kinds; keys of 0..2 and literals of 0..2 characters; collections of up to 2 elements",
          "thorough": "keys and literals of 0..4 characters; collections of up to 3 elements"}
OUTSIDE = "larger collections; equality does not look at the nested attributes of value attributes"
ANY_TEXT = True
ASSUMES = ["characters from the engine's alphabet (see DESIGN.md)"]


def across(sx, ka, kb, n):
    k1, k2 = sx.str("k1", n), sx.str("k2", n)
    a, b = attr(sx, "a", ka, k1), attr(sx, "b", kb, k2)
    ab, ba = a == b, b == a
    sx.check(ab == ba, "symmetric")
    sx.check((a != b) == sx.no(ab), "!= is the negation")
    sx.check((b != a) == sx.no(ba), "!= is the negation")
    if ka != kb:
        sx.check(sx.no(ab), "attributes of different kinds are different")
    else:
        want = k1 == k2
        if ka in VALUE_KINDS:
            va, vb = a.get_value(), b.get_value()
            want = sx.both(want, (va.get_uuid() == vb.get_uuid()) if ka == "id" else va == vb)
        sx.check(ab == want, "equal iff key and value are equal")
        if ab:
            sx.check(sx.hash_eq(a, b), "equal attributes have equal hashes")
    sx.check(a == a, "reflexive")
    sx.check(sx.hash_eq(a, a), "hash is stable")
    for o in (None, k1, 5):
        sx.check(sx.no(a == o), "an attribute is only equal to attributes")
        sx.check(a != o, "an attribute differs from other things")


def contents(sx, kind, n, size):
    key = sx.str("k", n)
    a, b = cls(sx, kind)(key), cls(sx, kind)(key)
    other = cls(sx, "list" if kind == "container" else "container")(key)
    ea, eb = [], []
    for i in range(sx.choice("na", range(size + 1))):
        ea.append(attr(sx, "a%d" % i, "literal" if i % 2 else "discrete", "k%d" % i, n=[1]))
    for i in range(sx.choice("nb", range(size + 1))):
        eb.append(attr(sx, "b%d" % i, "literal" if i % 2 else "discrete", "k%d" % i, n=[1]))
    for e in ea:
        a.add_to_collection(e)
        other.add_to_collection(e)
    for e in eb:
        b.add_to_collection(e)
    want = len(ea) == len(eb) and sx.both(*[x.get_value() == y.get_value() for x, y in zip(ea, eb)])
    ab = a == b
    sx.check(ab == want, "collections are equal iff their contents are, in order")
    sx.check((b == a) == ab, "symmetric")
    sx.check((a != b) == sx.no(ab), "!= is the negation")
    sx.check(sx.no(a == other), "a list is not a container")
    if ab:
        sx.check(sx.hash_eq(a, b), "equal collections have equal hashes")


def scenarios(tier):
    n = [0, 1, 2] if tier == "quick" else [0, 1, 2, 4]
    r = []
    for i, a in enumerate(KINDS):
        for b in KINDS[i:]:
            r.append(("%s-%s" % (a, b), lambda sx, a=a, b=b: across(sx, a, b, n)))
    for k in COLLECTIONS:
        r.append(("contents-" + k, lambda sx, k=k: contents(sx, k, n, 2 if tier == "quick" else 3)))
    return r
