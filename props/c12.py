"""C12: order, equality and conjunction of classifiers."""
from props.common import factory, put, cls, attr
BOUNDS = {"quick": "two and three classifiers; names of length 0 to 3, up to 4 keys of length 0 to 3 each, and long names and keys that differ in one "
                   "character; conjunctions of 1 to 3 classifiers with up to 4 keys",
          "thorough": "names and keys of length 0 to 4"}
OUTSIDE = "comparison with objects that are not classifiers other than by ==; longer names and keys"
ANY_TEXT = True
ASSUMES = ["Python compares strings by code points, lexicographically (modelled in symx/sstr.py, checked on witnesses)"]


def make(sx, name, nk, lens):
    n = sx.str(name, lens)
    ks = [sx.str("%s.k%d" % (name, i), lens) for i in range(nk)]
    return sx.C("classification.XEventAttributeClassifier")(n, ks), n, ks


def before(sx, x, y):
    """-1, 0, 1: the order by name, number of keys, keys."""
    (_, n, ks), (_, m, js) = x, y
    if n != m:
        return -1 if n < m else 1
    if len(ks) != len(js):
        return -1 if len(ks) < len(js) else 1
    for k, j in zip(ks, js):
        if k != j:
            return -1 if k < j else 1
    return 0


def agree(sx, x, y):
    a, b, r = x[0], y[0], before(sx, x, y)
    sx.check((a < b) == (r < 0), "<")
    sx.check((a <= b) == (r <= 0), "<=")
    sx.check((a > b) == (r > 0), ">")
    sx.check((a >= b) == (r >= 0), ">=")
    sx.check((a == b) == (r == 0), "==")
    sx.check((a != b) == (r != 0), "!=")
    c = a.compare_to(b)
    sx.check(sx.both((c < 0) == (r < 0), (c > 0) == (r > 0)), "compare_to")
    if r == 0:
        sx.check(sx.hash_eq(a, b), "equal classifiers have equal hashes")
        sx.check(len({a: 1, b: 2}) == 1, "equal classifiers are one key")


def order(sx, na, nb, lens):
    x, y = make(sx, "a", na, lens), make(sx, "b", nb, lens)
    agree(sx, x, y)
    agree(sx, y, x)
    agree(sx, x, x)
    sx.check(x[0] != "a" and not x[0] == None, "a classifier is not equal to other things")  # noqa: E711
    sx.check(x[0].name() == x[1] and str(x[0]) == x[1], "name")
    sx.check(list(x[0].get_defining_attribute_keys()) == x[2], "keys")


def three(sx, nk, lens):
    xs = [make(sx, n, nk, lens) for n in "abc"]
    a, b, c = [x[0] for x in xs]
    if a <= b and b <= c:
        sx.check(a <= c, "transitive")
    s = sorted([a, b, c])
    sx.check(s[0] <= s[1] and s[1] <= s[2], "sorted")


def renamed(sx):
    x = make(sx, "a", 1, [1, 2])
    m = sx.str("m", [0, 1, 2])
    x[0].set_name(m)
    sx.check(x[0].name() == m and str(x[0]) == m, "set_name")
    y = sx.C("classification.XEventAttributeClassifier")(m, list(x[2]))
    sx.check(x[0] == y and sx.hash_eq(x[0], y), "renamed classifier equals one with the name")


def long(sx):
    C = sx.C("classification.XEventAttributeClassifier")
    p, q = sx.str("p", [1]), sx.str("q", [1])
    pre, post = "classifier of the activity " * 3, " and more" * 5
    for a, b in ((("n", [pre + p + post]), ("n", [pre + q + post])), ((pre + p + post, ["k"]), (pre + q + post, ["k"])),
                 (("n", ["k"] * 12 + [p]), ("n", ["k"] * 12 + [q]))):
        agree(sx, (C(*a), *a), (C(*b), *b))


def conj(sx, sizes, lens):
    C, A = sx.C("classification.XEventAttributeClassifier"), sx.C("classification.XEventAndClassifier")
    parts, names, keys = [], [], []
    for i, n in enumerate(sizes):
        nm = sx.str("n%d" % i, lens)
        ks = [sx.str("k%d.%d" % (i, j), lens) for j in range(n)]
        parts.append(C(nm, list(ks)))
        names.append(nm)
        keys += ks
    c = A(parts)
    t = "(" + names[0]
    for n in names[1:]:
        t = t + " AND " + n
    sx.check(c.name() == t + ")", "name of the conjunction")
    got = list(c.get_defining_attribute_keys())
    for k in keys:
        sx.check(sx.either(*[k == g for g in got]), "every key is used")
    for g in got:
        sx.check(sx.either(*[k == g for k in keys]), "no other key is used")
    for x, y in zip(got, got[1:]):
        sx.check(x < y, "keys are sorted and distinct")
    for p, n in zip(parts, names):
        sx.check(p.name() == n, "the parts are unchanged")
    sx.check(sum(len(p.get_defining_attribute_keys()) for p in parts) == len(keys), "the keys of the parts are unchanged")
    sx.observe("keys", got)


def classes(sx, sizes):
    """Class identity of a conjunction over concrete overlapping keys."""
    C, A = sx.C("classification.XEventAttributeClassifier"), sx.C("classification.XEventAndClassifier")
    pool = ["b", "a", "d", "c"]
    parts = [C("c%d" % i, [pool[(i + j) % 4] for j in range(n)]) for i, n in enumerate(sizes)]
    c = A(parts)
    used = sorted({k for p in parts for k in p.get_defining_attribute_keys()})
    evs, vals = [], []
    for n in "xy":
        e, vs = factory(sx).create_event(), {}
        for k in pool:
            if sx.choice(n + k, [0, 1]) if k in used[:2] else True:
                vs[k] = sx.str("v" + n + k, [1, 2], chars="&ab ")
                put(e, cls(sx, "literal")(k, vs[k]))
            else:
                vs[k] = ""
        evs.append(e)
        vals.append(vs)
    exp = []
    for vs in vals:
        t = vs[used[0]]
        for k in used[1:]:
            t = t + "&&" + vs[k]
        exp.append(t)
    for e, t in zip(evs, exp):
        sx.check(c.get_class_identity(e) == t, "identity from the values of all keys in sorted order")
    sx.check(c.same_event_class(*evs) == (exp[0] == exp[1]), "same class exactly with the same identity")


def standard(sx):
    f = factory(sx)
    e, o = f.create_event(), f.create_event()
    vals = {}
    for n, x in (("e", e), ("o", o)):
        for k in ("concept:name", "org:resource", "lifecycle:transition"):
            if sx.choice(n + k, [0, 1]):
                vals[n, k] = sx.str("v" + n + k, [0, 1, 2])
                put(x, cls(sx, "literal")(k, vals[n, k]))
    for c, k in (("XEventNameClassifier", "concept:name"), ("XEventResourceClassifier", "org:resource"),
                 ("XEventLifeTransClassifier", "lifecycle:transition")):
        c = sx.C("classification." + c)()
        sx.check(c.get_class_identity(e) == vals.get(("e", k), ""), "identity under the standard classifier of " + k)
        sx.check(c.same_event_class(e, o) == (vals.get(("e", k), "") == vals.get(("o", k), "")), "same class under the classifier of " + k)
        sx.check(list(c.get_defining_attribute_keys()) == [k], "key of the classifier")


def scenarios(tier):
    q = tier == "quick"
    L = [0, 1, 2, 3] if q else [0, 1, 2, 3, 4]
    m = 4
    r = [("order-%d-%d" % (a, b), lambda sx, a=a, b=b: order(sx, a, b, L)) for a in range(m + 1) for b in range(a, m + 1)]
    r += [("three-%d" % n, lambda sx, n=n: three(sx, n, [0, 1] if n else L)) for n in (0, 1, 2, 3)]
    r += [("renamed", renamed), ("long", long), ("standard", standard),
          ("empty", lambda sx: sx.check(isinstance(
              sx.raises(lambda: sx.C("classification.XEventAndClassifier")([])), ValueError), "an empty conjunction is refused"))]
    for s in [(0,), (1,), (2,), (3,), (0, 0), (1, 1), (1, 2), (2, 1), (1, 1, 1), (2, 2), (3, 1), (1, 0, 2), (2, 1, 1)]:
        r += [("conj-" + "-".join(map(str, s)), lambda sx, s=s: conj(sx, s, L if sum(s) <= 3 else [0, 1]))]
    for s in [(1,), (2,), (1, 1), (2, 1), (2, 2), (1, 1, 1), (3, 2), (2, 2, 2)]:
        r += [("classes-" + "-".join(map(str, s)), lambda sx, s=s: classes(sx, s))]
    return r
