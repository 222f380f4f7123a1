"""C05: identifiers."""
BOUNDS = "every 128-bit identifier; three at a time for the order"
OUTSIDE = "other textual forms of UUIDs than the canonical one in either case"
ASSUMES = ["uuid.UUID is modelled as 32 hexadecimal digits (text, order, equality and hash by value)"]


def roundtrip(sx):
    XID = sx.C("id.XID")
    u = sx.uuid("u")
    x = XID(u)
    t = str(x)
    sx.check(len(t) == 36, "canonical text length")
    y = XID.parse(t)
    sx.check(y == x, "parse(str(x)) == x")
    sx.check(sx.no(y != x), "parse(str(x)) is not different")
    sx.check(y.get_uuid() == u, "same 128 bits")
    sx.check(str(y) == t, "text is stable")
    z = XID.parse(t.lower())
    sx.check(z == x, "lower case text denotes the same identifier")
    c = x.clone()
    sx.check(c == x, "clone is equal")
    v = sx.uuid("v")
    c.set_uuid(v)
    sx.check(x.get_uuid() == u, "changing the clone leaves the original")
    sx.check((str(c) == t) == (u == v), "texts are equal iff the identifiers are")
    sx.observe("text", t)


def transitive(sx):
    XID = sx.C("id.XID")
    a, b, c = [XID(sx.uuid(n)) for n in "abc"]
    if a.compare_to(b) <= 0 and b.compare_to(c) <= 0:
        sx.check(a.compare_to(c) <= 0, "transitive")
        sx.check(a <= c and c >= a, "transitive operators")


def order(sx):
    XID = sx.C("id.XID")
    a, b = [XID(sx.uuid(n)) for n in "ab"]
    ab, ba = a.compare_to(b), b.compare_to(a)
    sx.check((a == b) == (ab == 0), "equality agrees with the order")
    sx.check((a != b) == (ab != 0), "inequality agrees with the order")
    sx.check((ab < 0) == (ba > 0), "antisymmetric")
    sx.check((a < b) == (ab < 0), "<")
    sx.check((a <= b) == (ab <= 0), "<=")
    sx.check((a > b) == (ab > 0), ">")
    sx.check((a >= b) == (ab >= 0), ">=")
    sx.check((a.get_uuid() < b.get_uuid()) == (ab < 0), "order of the 128-bit numbers")
    if a == b:
        sx.check(sx.hash_eq(a, b), "equal identifiers have equal hashes")
        sx.check(str(a) == str(b), "equal identifiers have equal texts")
    sx.check(sx.no(a == str(a)), "an identifier is not equal to its text")
    sx.check(a != None, "an identifier is not equal to None")


def scenarios(tier):
    return [("roundtrip", roundtrip), ("order", order), ("transitive", transitive)]
