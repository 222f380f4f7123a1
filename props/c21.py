"""C21: nested cost values by path."""
from props.common import factory, put, cls, KINDS, attr, check_same
from props.setters import element
BOUNDS = {"quick": "up to 3 paths of length 1 to 3 (one of length 5) with arbitrary keys of length 0 to 1 (and long keys); amounts: all doubles, texts of length 0 to 2; "
                   "elements with up to 2 existing attributes of any kind with arbitrary keys, one level nested; three levels of attributes with any values set directly",
          "thorough": "up to 4 paths of length up to 4"}
OUTSIDE = "paths through the cost attributes themselves; paths of length 0"
ANY_TEXT = True
ASSUMES = []
F = {"amount": "amounts", "driver": "drivers", "type": "types"}


def ok(f, v):
    return v > 0 if f == "amount" else len(v.strip()) > 0


def val(sx, name, f):
    return sx.float(name, finite=True) if f == "amount" else sx.str(name, [0, 1, 2], ws=True)


def same_path(sx, a, b):
    return len(a) == len(b) and sx.both(*[x == y for x, y in zip(a, b)])


def find(sx, pairs, path):
    for p, v in pairs:
        if same_path(sx, p, path):
            return (p, v)
    return None


def verify(sx, x, f, el, pairs):
    """pairs: distinct paths with the values that must be there (the last valid one)."""
    nested = getattr(x, "extract_nested_" + F[f])(el)
    sx.check(len(nested) == len(pairs), "exactly the paths set are read")
    for p, v in pairs:
        t = tuple(p)
        sx.check(t in nested, "every path set is read")
        sx.check(nested[t] == v, "value of a path")
    flat = getattr(x, "extract_" + F[f])(el)
    one = [(p, v) for p, v in pairs if len(p) == 1]
    sx.check(len(flat) == len(one), "flat: exactly the paths of length one")
    for p, v in one:
        sx.check(p[0] in flat and flat[p[0]] == v, "flat: value")


def paths(sx, f, lens, nkey, where="event"):
    x, el = sx.C("extension.std.XCostExtension")(), element(sx, where)
    sx.check(len(getattr(x, "extract_nested_" + F[f])(el)) == 0 and len(getattr(x, "extract_" + F[f])(el)) == 0, "nothing before")
    ps = [[sx.str("k%d.%d" % (i, j), nkey) for j in range(n)] for i, n in enumerate(lens)]
    d, pairs, every = {}, [], []
    for i, p in enumerate(ps):
        v = val(sx, "v%d" % i, f)
        if tuple(p) in d:
            sx.assume(False)
        d[tuple(p)] = v
        every.append(p)
        if ok(f, v):
            pairs.append((p, v))
    getattr(x, "assign_nested_" + F[f])(el, d)
    verify(sx, x, f, el, pairs)
    for p in every:
        e = el
        for k in p:
            sx.check(k in e.get_attributes(), "attributes on the path exist")
            a = e.get_attributes()[k]
            sx.check(a.get_key() == k and type(a) is cls(sx, "literal") and a.get_value() == "", "created empty with the key")
            e = a
    other = [g for g in F if g != f]
    for g in other:
        sx.check(len(getattr(x, "extract_nested_" + F[g])(el)) == 0, "nothing of the other values")


def flat(sx, f, n):
    x, el = sx.C("extension.std.XCostExtension")(), element(sx, "event")
    d, pairs = {}, []
    for i in range(n):
        k, v = sx.str("k%d" % i, [0, 1, 2]), val(sx, "v%d" % i, f)
        if k in d:
            sx.assume(False)
        d[k] = v
        if ok(f, v):
            pairs.append(([k], v))
    getattr(x, "assign_" + F[f])(el, d)
    verify(sx, x, f, el, pairs)
    sx.check(len(el.get_attributes()) == n, "one attribute per key")


def existing(sx, f, kind, depth):
    """Attributes on the path that exist are kept."""
    x, el = sx.C("extension.std.XCostExtension")(), element(sx, "event")
    k0, k1 = sx.str("e0", [0, 1]), sx.str("e1", [0, 1])
    a = attr(sx, "a", kind, k0, small=True)
    b = attr(sx, "b", "literal", k1, small=True)
    put(a, b)
    put(el, a)
    sa, sb = a.clone(), b.clone()
    p = [sx.str("k%d" % i, [0, 1]) for i in range(depth)]
    v = val(sx, "v", f)
    getattr(x, "assign_nested_" + F[f])(el, {tuple(p): v})
    verify(sx, x, f, el, [(p, v)] if ok(f, v) else [])
    sx.check(el.get_attributes()[k0] is a and a.get_attributes()[k1] is b, "existing attributes are kept")
    key = "cost:" + f
    for y, s in ((a, sa), (b, sb)):
        sx.check(type(y) is type(s) and y.get_key() == s.get_key(), "kind and key of existing attributes")
        if kind not in ("list", "container") or y is b:
            sx.check(y.get_value() == s.get_value(), "values of existing attributes")
    n = 0
    e = el
    for i, k in enumerate(p):
        sx.check(k in e.get_attributes(), "path exists")
        e = e.get_attributes()[k]
    sx.check((key in e.get_attributes()) == ok(f, v), "the value is at the end of the path")


def again(sx, f):
    """Setting twice: the second value holds; the other path stays."""
    x, el = sx.C("extension.std.XCostExtension")(), element(sx, "event")
    p, q = [sx.str("p", [0, 1])], [sx.str("q0", [0, 1]), sx.str("q1", [0, 1])]
    v, w, u = val(sx, "v", f), val(sx, "w", f), val(sx, "u", f)
    a = getattr(x, "assign_nested_" + F[f])
    a(el, {tuple(p): v, tuple(q): w})
    a(el, {tuple(q): u})
    pairs = [(p, v)] if ok(f, v) else []
    if ok(f, u):
        pairs.append((q, u))
    elif ok(f, w):
        pairs.append((q, w))
    verify(sx, x, f, el, pairs)


def present(sx, f, kind):
    """Values that are there, however they were set, are read: also amounts of zero and less, and blank texts."""
    x, el = sx.C("extension.std.XCostExtension")(), element(sx, "event")
    pairs = []
    e = el
    for i in range(3):
        a = attr(sx, "a%d" % i, kind if i == 1 else "literal", "k%d" % i, small=True)
        put(e, a)
        if sx.choice("has%d" % i, [0, 1]):
            v = val(sx, "v%d" % i, f)
            put(a, cls(sx, "continuous" if f == "amount" else "literal")("cost:" + f, v, x))
            pairs.append((["k%d" % j for j in range(i + 1)], v))
        e = a
    verify(sx, x, f, el, pairs)


def together(sx):
    """Amount, driver and type on the same paths."""
    x, el = sx.C("extension.std.XCostExtension")(), element(sx, "event")
    p = [sx.str("p0", [0, 1]), sx.str("p1", [0, 1])]
    v = sx.float("v", finite=True)
    d, t = sx.str("d", [1]), sx.str("t", [1])
    x.assign_nested_amounts(el, {tuple(p): v})
    x.assign_nested_drivers(el, {tuple(p): d, tuple(p[:1]): d})
    x.assign_nested_types(el, {tuple(p[:1]): t})
    verify(sx, x, "amount", el, [(p, v)] if v > 0 else [])
    verify(sx, x, "driver", el, [(p, d), (p[:1], d)] if ok("driver", d) else [])
    verify(sx, x, "type", el, [(p[:1], t)] if ok("type", t) else [])


def scenarios(tier):
    q = tier == "quick"
    r = []
    shapes = [(1,), (2,), (3,), (5,), (1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 2), (1, 2, 3), (2, 2, 1)]
    for f in F:
        for s in shapes if f == "amount" or not q else shapes[:8]:
            r.append(("paths-%s-%s" % (f, "-".join(map(str, s))), lambda sx, f=f, s=s: paths(sx, f, s, [0, 1] if sum(s) < 5 else [1])))
        if not q:
            for s in ((1, 1, 1, 1), (4, 3), (3, 3)):
                r.append(("paths-%s-%s" % (f, "-".join(map(str, s))), lambda sx, f=f, s=s: paths(sx, f, s, [1])))
        r += [("flat-%s-%d" % (f, n), lambda sx, f=f, n=n: flat(sx, f, n)) for n in range(4)]
        r += [("again-" + f, lambda sx, f=f: again(sx, f)),
              ("trace-" + f, lambda sx, f=f: paths(sx, f, (2,), [0, 1], "trace")), ("log-" + f, lambda sx, f=f: paths(sx, f, (2,), [0, 1], "log"))]
        for i, k in enumerate(KINDS if f == "amount" or not q else ["literal", "list"]):
            r += [("existing-%s-%s-%d" % (f, k, n), lambda sx, f=f, k=k, n=n: existing(sx, f, k, n)) for n in (1, 2, 3)]
        r += [("present-%s-%s" % (f, k), lambda sx, f=f, k=k: present(sx, f, k)) for k in ("literal", "discrete", "list")]
    r += [("together", together)]
    return r
