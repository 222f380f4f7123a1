"""C08: copies of attributes, events, traces and logs."""
from props.common import KINDS, COLLECTIONS, VALUE_KINDS, attr, cls, snap, snap_map, check_snap, check_snap_map, kind_of, check_same, check_same_map, put, value, factory
BOUNDS = {"quick": "every kind of attribute with up to 3 nested attributes, nested six times; collections of up to 5 elements of "
                   "every kind, also collections, some with nested attributes; traces of up to 12 events, logs of up to 6 traces; all "
                   "values and the identities of the events symbolic",
          "thorough": "as quick, with nesting of depth 8, traces of up to 20 events and logs of up to 8 traces"}
OUTSIDE = "larger elements; extensions are shared between a log and its copy (their lists are not)"
ANY_TEXT = True
ASSUMES = ["uuid.uuid4 returns arbitrary identifiers, different from all earlier ones"]


with_ext = [0]


def build(sx, name, kind, depth, rot=0):
    ext = sx.C("extension.XExtension")("Ext" + name, name, sx.parse_uri("http://x.example/" + name)) \
        if with_ext[0] and (with_ext[0] == 1 or rot % 2) else None
    a = attr(sx, name, kind, "key-" + name, ext)
    if kind in COLLECTIONS:
        for i in range(3 + depth % 3):
            e = attr(sx, "%se%d" % (name, i), KINDS[(i + rot) % 8], "item")
            if depth > 1 and i % 2:
                put(e, attr(sx, "%se%dn" % (name, i), "discrete", "in-item"))
            if KINDS[(i + rot) % 8] in COLLECTIONS:
                e.add_to_collection(attr(sx, "%se%dc" % (name, i), "literal", "in-collection"))
            a.add_to_collection(e)
    if depth:
        for i in range(2 + (depth == 2)):
            k = KINDS[(KINDS.index(kind) + 1 + 3 * i + rot) % 8]
            put(a, build(sx, "%s%d" % (name, i), k, depth - 1 if i == 0 else 0, rot + 1))
    return a


def fresh(sx, kind, name):
    return value(sx, name, kind)


def shake(sx, x, name):
    """Changes everything below an attribute."""
    below = list(x.get_attributes().values())
    if hasattr(x, "get_collection"):
        below += list(x.get_collection())
    for i, inner in enumerate(below):
        nm = "%s%d" % (name, i)
        if hasattr(inner, "set_value"):
            k = [k for k in VALUE_KINDS if cls(sx, k) is type(inner)][0]
            if k == "id":
                inner.get_value().set_uuid(sx.uuid(nm))
            else:
                inner.set_value(fresh(sx, k, nm))
        shake(sx, inner, nm)
        if hasattr(inner, "get_collection"):
            inner.add_to_collection(attr(sx, nm + "c", "discrete", "shaken"))
        put(inner, attr(sx, nm + "d", "discrete", "shaken"))


def attribute(sx, kind, depth):
    with_ext[0] = sx.choice("ext", [0, 1, 2])
    a = build(sx, "a", kind, depth)
    c = a.clone()
    sx.check(c is not a, "the copy is another object")
    check_same(sx, a, c, "copy")
    sx.check(a.get_extension() is c.get_extension(), "same extension")
    sx.check(c == a, "the copy is equal")
    keep = snap(a)
    which = sx.choice("which", [0, 1])
    x, y = (a, c) if which else (c, a)
    if kind in VALUE_KINDS:
        x.set_value(fresh(sx, kind, "new"))
    else:
        x.add_to_collection(attr(sx, "added", "literal", "added"))
    put(x, attr(sx, "more", "boolean", "more"))
    shake(sx, x, "s")
    check_snap(sx, keep, y, "unaffected by changes of the other")


def identifier(sx):
    a = attr(sx, "a", "id", "k")
    c = a.clone()
    u, v = a.get_value().get_uuid(), sx.uuid("v")
    c.get_value().set_uuid(v)
    sx.check(a.get_value().get_uuid() == u, "identifier values are copied")


def map_(sx):
    M = sx.C("model.XAttributeMap")
    k1, k2 = sx.str("k1", [0, 1, 2]), sx.str("k2", [0, 1, 2])
    m = M()
    m[k1] = attr(sx, "a1", "literal", k1)
    m[k2] = attr(sx, "a2", "discrete", k2)
    c = m.clone()
    sx.check(type(c) is type(m), "a map is copied to a map")
    sx.check(len(c) == len(m), "size")
    sx.check(list(c.keys()) == list(m.keys()), "keys in order")
    for k in list(m.keys()):
        check_same(sx, m[k], c[k], "map")
        sx.check(m[k] is not c[k], "attributes are copied")
    n = len(m)
    del c[k1]
    sx.check(len(m) == n, "removing from the copy leaves the original")
    sx.check(k1 in m, "removing from the copy leaves the original")
    sx.check(M().is_empty(), "empty")
    sx.check(sx.no(m.is_empty()), "not empty")


def make_event(sx, name, kinds=("literal", "timestamp")):
    e = factory(sx).create_event()
    for i, k in enumerate(kinds):
        a = attr(sx, "%s.%d" % (name, i), k, "%s%d" % (k, i))
        put(a, attr(sx, "%s.%d.n" % (name, i), "discrete", "nested"))
        put(e, a)
    return e


def event(sx):
    e = make_event(sx, "e", VALUE_KINDS)
    if sx.choice("explicit", [0, 1]):
        e.set_id(sx.C("id.XID")(sx.uuid("identity", other=True)))
    i = e.get_id()
    c = e.clone()
    sx.check(c is not e, "another object")
    check_same_map(sx, e, c, "event")
    sx.check(e.get_id() == i, "the original keeps its identifier")
    sx.check(c.get_id() != i, "the copy has an identifier of its own")
    sx.check(c != e, "events are compared by identifier")
    d = e.clone()
    sx.check(d.get_id() != c.get_id(), "every copy has an identifier of its own")
    keep = snap_map(e)
    x, y = (c, e) if sx.choice("which", [0, 1]) else (e, c)
    list(x.get_attributes().values())[0].set_value(sx.str("new", [0, 1]))
    put(list(x.get_attributes().values())[1], attr(sx, "x", "literal", "x"))
    shake(sx, x, "s")
    del x.get_attributes()["id5"]
    check_snap_map(sx, keep, y, "unaffected")
    check_snap_map(sx, keep, d, "other copy unaffected")


def trace(sx, size):
    f = factory(sx)
    t = f.create_trace()
    put(t, attr(sx, "t", "literal", "tk"))
    n = sx.choice("n", range(size + 1))
    for i in range(n):
        t.append(make_event(sx, "e%d" % i, ("literal", "id")[:1 + i % 2]))
    if n > 1 and sx.choice("explicit", [0, 1]):
        t[n - 2].set_id(sx.C("id.XID")(sx.uuid("identity", other=True)))
    c = t.clone()
    sx.check(type(c) is type(t), "a trace")
    sx.check(len(c) == n, "number of events")
    check_same_map(sx, t, c, "trace")
    for x, y in zip(t, c):
        sx.check(x is not y, "events are copied")
        sx.check(x.get_id() != y.get_id(), "events get identifiers of their own")
        check_same_map(sx, x, y, "event")
    keep, keeps = snap_map(t), [snap_map(x) for x in t]
    c, t = (c, t) if sx.choice("which", [0, 1]) else (t, c)
    if n:
        for i in range(n):
            put(c[i], attr(sx, "z%d." % i, "literal", "z"))
            shake(sx, c[i], "z%d.s" % i)
        del c[n - 1]
    put(c, attr(sx, "zz", "literal", "zz"))
    shake(sx, c, "zzs")
    c.append(make_event(sx, "more"))
    sx.check(len(t) == n, "unaffected by changes of the other")
    check_snap_map(sx, keep, t, "unaffected trace")
    for x, y in zip(keeps, t):
        check_snap_map(sx, x, y, "unaffected event")


def log(sx, size):
    f = factory(sx)
    lg = f.create_log()
    put(lg, attr(sx, "l", "literal", "lk"))
    Ext = sx.C("extension.XExtension")
    exts = [Ext("E%d" % i, "e%d" % i, sx.parse_uri("http://x.example/%d" % i)) for i in range(2)]
    for x in exts:
        lg.get_extensions().add(x)
    C = sx.C("classification.XEventAttributeClassifier")
    cl = [C(sx.str("cn%d" % i, [0, 1]), ["k"]) for i in range(2)]
    lg.get_classifiers().extend(cl)
    cn = [k.name() for k in cl]
    gt, ge = attr(sx, "gt", "discrete", "gt"), attr(sx, "ge", "boolean", "ge")
    put(gt, attr(sx, "gtn", "literal", "gtn"))
    lg.get_global_trace_attributes().append(gt)
    lg.get_global_event_attributes().append(ge)
    fk, fv = sx.str("fk", [0, 1]), sx.str("fv", [0, 1])
    lg.set_features(fk, fv)
    n = sx.choice("n", range(size + 1))
    for i in range(n):
        t = f.create_trace()
        put(t, attr(sx, "t%d" % i, "literal", "tk"))
        for j in range(i + 1):
            t.append(make_event(sx, "e%d.%d" % (i, j), ("continuous",)))
        lg.append(t)
    c = lg.clone()
    keep = snap_map(lg)
    keeps = [(snap_map(t), [snap_map(e) for e in t]) for t in lg]
    gt1, ge1 = snap(gt), snap(ge)

    def check(x, what):
        sx.check(len(x) == n, what + ": traces")
        for (tk, ek), t, u in zip(keeps, lg, x):
            sx.check(t is not u or lg is x, what + ": traces are copied")
            check_snap_map(sx, tk, u, what + " trace")
            sx.check(len(ek) == len(u), what + ": events")
            for e, f, g in zip(ek, t, u):
                sx.check(f is not g or lg is x, what + ": events are copied")
                check_snap_map(sx, e, g, what + " event")
        check_snap_map(sx, keep, x, what)
        sx.check(set(x.get_extensions()) == set(exts), what + ": extensions")
        sx.check(len(x.get_classifiers()) == 2 and [k.name() for k in x.get_classifiers()] == cn, what + ": classifiers")
        sx.check(all(list(k.get_defining_attribute_keys()) == ["k"] for k in x.get_classifiers()), what + ": keys of classifiers")
        sx.check([a.get_key() for a in x.get_global_trace_attributes()] == ["gt"], what + ": trace globals")
        sx.check([a.get_key() for a in x.get_global_event_attributes()] == ["ge"], what + ": event globals")
        check_snap(sx, gt1, x.get_global_trace_attributes()[0], what + " trace global")
        check_snap(sx, ge1, x.get_global_event_attributes()[0], what + " event global")
        sx.check(x.get_features() == {fk: fv}, what + ": features")
    check(c, "copy")
    d = lg.clone()
    d.get_extensions().clear()
    for k in d.get_classifiers():
        k.set_name("renamed")
        k.get_defining_attribute_keys().append("more")
    d.get_classifiers().pop()
    for i, a in enumerate(d.get_global_trace_attributes() + d.get_global_event_attributes()):
        put(a, attr(sx, "zg%d" % i, "literal", "z"))
        a.set_value(fresh(sx, "boolean" if i else "discrete", "zgv%d" % i))
        shake(sx, a, "zg%d" % i)
    d.get_global_trace_attributes().clear()
    d.get_global_event_attributes().append(gt)
    d.set_features("x", "y")
    put(d, attr(sx, "z", "literal", "z"))
    if n:
        for i in range(n):
            put(d[i], attr(sx, "z1%d." % i, "literal", "z"))
            shake(sx, d[i], "z2%d." % i)
            for j, e in enumerate(d[i]):
                put(e, attr(sx, "z3%d.%d" % (i, j), "literal", "z"))
                shake(sx, e, "z4%d.%d." % (i, j))
        d[0].clear()
        d.pop()
    check(c, "first copy after changing the second")
    check(lg, "original after changing a copy")


def scenarios(tier):
    q = tier == "quick"
    r = [("attribute-" + k, lambda sx, k=k: attribute(sx, k, 6 if q else 8), {"weight": 3}) for k in KINDS]
    return r + [("identifier", identifier), ("map", map_), ("event", event), ("trace", lambda sx: trace(sx, 12 if q else 20)),
                ("log", lambda sx: log(sx, 6 if q else 8))]
