"""C50: event classes compare by identity."""
from props.common import factory, put, cls
BOUNDS = {"quick": "pairs and triples of classes with arbitrary identities of length 0 to 4, indices and sizes; all sequences of up to 4 changes of the size; sets of "
                   "classes of up to 3 events with arbitrary names; pairs of classifiers with arbitrary names and keys", "thorough": "identities of length 0 to 7, 6 changes"}
OUTSIDE = "comparing the order of a class with something that is not a class"
ANY_TEXT = True
ASSUMES = []


def make(sx, name, lens):
    i, n = sx.str(name, lens), sx.int(name + "index", 0, 10 ** 6)
    return i, n, sx.C("classification.XEventClass")(i, n)


def pair(sx, lens):
    a, n, x = make(sx, "a", lens)
    b, m, y = make(sx, "b", lens)
    s = sx.int("size", 0, 10 ** 6)
    x.set_size(s)
    same = a == b
    sx.check((x == y) == same and (y == x) == same, "equal by identity")
    sx.check((x != y) == (not same) and (y != x) == (not same), "unequal otherwise")
    sx.check((x < y) == (a < b) and (y > x) == (a < b), "order of the identities")
    sx.check((x > y) == (b < a) and (y < x) == (b < a), "order of the identities")
    sx.check((x <= y) == (a <= b) and (y >= x) == (a <= b), "order of the identities, or equal")
    sx.check((x >= y) == (b <= a), "order of the identities, or equal")
    c = x.compare_to(y)
    sx.check((c == 0) == same and (c < 0) == (a < b), "comparison")
    if same:
        sx.check(sx.hash_eq(x, y), "equal hashes")
    sx.check(x == x and not (x != x) and x <= x and not (x < x), "itself")
    sx.check(str(x) == a and x.get_id() == a, "text and identity")
    sx.check(x.get_index() == n and y.get_index() == m, "index")
    sx.check(x.size() == s and y.size() == 0, "size")
    for o in (a, None, n):
        sx.check(not (x == o) and x != o, "not equal to something else")
    sx.check((y in [x]) == same and (y in {x: 1}) == same, "found among others")


def order(sx, n):
    cs = [make(sx, "c%d" % i, [0, 1, 2] if i < 2 else [1])[2] for i in range(n)]
    s = sorted(cs)
    sx.check(len(s) == n, "as many sorted")
    for a, b in zip(s, s[1:]):
        sx.check(a.get_id() <= b.get_id(), "sorted by identity")
    sx.check(min(cs).get_id() == s[0].get_id() and max(cs).get_id() == s[-1].get_id(), "least and greatest")


def sizes(sx, n):
    a, i, x = make(sx, "a", [1])
    _, _, y = make(sx, "b", [1])
    s = 0
    for k in range(n):
        if sx.choice("op%d" % k, ["inc", "set"]) == "inc":
            x.increment_size()
            s = s + 1
        else:
            s = sx.int("s%d" % k, 0, 10 ** 9)
            x.set_size(s)
        sx.check(x.size() == s, "size")
    sx.check(y.size() == 0, "size of another class")
    sx.check(x.get_id() == a and x.get_index() == i, "identity and index stay")


def found(sx, n):
    """Classes of a log: found by identity, index and event."""
    f = factory(sx)
    log, t = f.create_log(), f.create_trace()
    log.append(t)
    vs = []
    for i in range(n):
        e = f.create_event()
        v = sx.str("v%d" % i, [0, 1])
        put(e, cls(sx, "literal")("k", v))
        t.append(e)
        vs.append(v)
    C = sx.C("classification.XEventAttributeClassifier")
    c = sx.C("classification.XEventClasses").derive_event_classes(C("c", ["k"]), log)
    cs = list(c.get_classes())
    sx.check(len(c) == len(cs), "number of classes")
    for i in range(len(cs)):
        sx.check(c.get_by_index(i) is not None and c.get_by_index(i).get_index() == i, "found by index")
        sx.check(c.get_by_identity(cs[i].get_id()) is cs[i], "found by identity")
        for j in range(len(cs)):
            sx.check((c.get_by_index(i) < c.get_by_index(j)) == (i < j), "indices follow the order of the identities")
    sx.check(c.get_by_index(len(cs)) is None and c.get_by_index(-1) is None, "no other index")
    for e, v in zip(t, vs):
        k = c.get_class_of(e)
        sx.check(k is not None and k.get_id() == v and k is c.get_by_identity(v), "class of an event")
    q = sx.str("q", [0, 1, 2])
    sx.check((c.get_by_identity(q) is not None) == (len([v for v in vs if v == q]) > 0), "no other identity")


def same(sx):
    """Class sets are equal when their classifiers are."""
    C, X = sx.C("classification.XEventAttributeClassifier"), sx.C("classification.XEventClasses")
    k, j = sx.str("k", [1]), sx.str("j", [1])
    a, b = C(sx.str("n", [0, 1]), [k, "x"]), C(sx.str("m", [0, 1]), [j, "x"])
    x, y = X(a), X(b)
    if sx.choice("register", [0, 1]):
        x.register("id")
    sx.check((x == y) == (a == b) and (x != y) == (not (a == b)), "equal by classifier")
    sx.check(x == x and not (x != x) and not (x == a), "itself")
    sx.check(x.get_classifier() is a and str(x).endswith(a.name()), "classifier")


def scenarios(tier):
    q = tier == "quick"
    return [("pair", lambda sx: pair(sx, [0, 1, 2, 3, 4] if q else list(range(8)))), ("order-2", lambda sx: order(sx, 2)), ("order-3", lambda sx: order(sx, 3)),
            ("sizes", lambda sx: sizes(sx, 4 if q else 6)), ("same", same)] + [("found-%d" % n, lambda sx, n=n: found(sx, n)) for n in (0, 1, 2, 3)]
