"""C33: prototypes and kinds."""
from props.common import cls, attr, check_same, check_same_map, KINDS, VALUE_KINDS, COLLECTIONS, CLASS, put
BOUNDS = {"quick": "every kind with arbitrary key (length 0 to 2), value and extension, with up to two nested attributes of any kind, one of them nested again; "
                   "lists and containers of two contents", "thorough": "three nested attributes of any kind, texts of length 0 to 4"}
OUTSIDE = "attributes of classes of the user's own; set_value after the prototype was derived from a subclass"
ANY_TEXT = True
ASSUMES = []


def default_ok(sx, kind, v):
    if kind == "literal":
        return v == "UNKNOWN"
    if kind == "boolean":
        return v is True
    if kind == "continuous":
        return sx.both(type(v) is float, v == 0.0 and str(v) == "0.0")
    if kind == "discrete":
        return sx.both(type(v) is int, v == 0)
    return None


def tree(sx, kind, inner, lens):
    ext = sx.choice("ext", [None, "XConceptExtension", "XTimeExtension"])
    ext = sx.C("extension.std." + ext)() if ext else None
    a = attr(sx, "v", kind, sx.str("key", lens), ext)
    if kind in COLLECTIONS:
        for i, k in enumerate(inner):
            a.add_to_collection(attr(sx, "c%d" % i, k, "c%d" % i))
    for i, k in enumerate(inner):
        b = attr(sx, "n%d" % i, k, "n%d" % i if i else sx.choice("nk", ["n0", ""]), ext if i else None)
        if i:
            put(b, attr(sx, "m%d" % i, "discrete", "m"))
        put(a, b)
    return a, ext


def prototype(sx, kind, inner, lens):
    U = sx.C("utils.XAttributeUtils")
    a, ext = tree(sx, kind, inner, lens)
    ref = a.clone()
    p = U.derive_prototype(a)
    sx.check(p is not a, "another attribute")
    sx.check(type(p) is type(a), "kind")
    sx.check(p.get_key() == a.get_key(), "key")
    sx.check(p.get_extension() is ext, "extension")
    check_same(sx, ref, a, "the original")
    sx.check(a.get_extension() is ext, "extension of the original")
    if kind in COLLECTIONS:
        check_same(sx, a, p, "prototype of a collection")
    else:
        check_same_map(sx, a, p, "prototype")
        v = p.get_value()
        if kind == "timestamp":
            e = sx.mk_datetime(1970, 1, 1, tz=sx.mk_zone(0))
            sx.check(sx.delta_us(v, e) == 0, "1970-01-01 UTC")
            sx.check(v.utcoffset() == e.utcoffset(), "in UTC")
            sx.check(p.get_value_millis() == 0, "0 milliseconds")
        elif kind == "id":
            q = U.derive_prototype(a)
            sx.check(v != q.get_value(), "fresh identifiers")
        else:
            sx.check(default_ok(sx, kind, v), "default value")
    for x, y in zip(a.get_attributes().values(), p.get_attributes().values()):
        sx.check(x is not y and x.get_extension() is y.get_extension(), "nested attributes are copies")
    # nothing is shared
    put(p, cls(sx, "literal")("new", "x"))
    for x in list(p.get_attributes().values()):
        put(x, cls(sx, "literal")("new", "x"))
    if kind in COLLECTIONS:
        p.add_to_collection(cls(sx, "literal")("new", "x"))
        for x in p.get_collection():
            put(x, cls(sx, "literal")("new", "x"))
    check_same(sx, ref, a, "the original after changing the prototype")


def types(sx, kind):
    U = sx.C("utils.XAttributeUtils")
    a = attr(sx, "v", kind, sx.str("k", [0, 1]))
    sx.check(U.get_type(a) is cls(sx, kind), "type")
    sx.check(U.get_type_string(a) == kind.upper(), "name of the type")
    p = U.derive_prototype(a)
    sx.check(U.get_type(p) is cls(sx, kind) and U.get_type_string(p) == kind.upper(), "type of the prototype")


def scenarios(tier):
    q = tier == "quick"
    r = [("type-" + k, lambda sx, k=k: types(sx, k)) for k in KINDS]
    L = [0, 2] if q else [0, 1, 2, 4]
    for k in KINDS:
        for i, x in enumerate(KINDS):
            ins = [[x], [KINDS[(i + 3) % 8], x]] + ([] if i else [[]])
            if not q:
                ins = [[x, y] for y in KINDS] + [[x, y, "literal"] for y in KINDS] + [[x]]
            for n in ins:
                r.append(("prototype-%s-%s" % (k, "-".join(n) or "none"), lambda sx, k=k, n=n: prototype(sx, k, n, L)))
    return r
