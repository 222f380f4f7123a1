"""C16: accessors of concept, organizational, lifecycle and identity extension."""
from props.common import factory, put, cls
from props.setters import element, others, check_others, assign, extract, check_set
BOUNDS = {"quick": "texts of length 0 to 3 (white space included) and of 40 characters with one arbitrary, all 128-bit ids; one, two and three settings in "
                   "a row on logs, traces, events and attributes that carry other attributes; all pairs of setters",
          "thorough": "texts of length 0 to 5, all triples of setters on events"}
OUTSIDE = "longer texts"
ANY_TEXT = True
ASSUMES = []
X = "extension.std."
D = {"name": (X + "XConceptExtension", "concept:name", "literal", "assign_name", "extract_name"),
     "instance": (X + "XConceptExtension", "concept:instance", "literal", "assign_instance", "extract_instance"),
     "resource": (X + "XOrganizationalExtension", "org:resource", "literal", "assign_resource", "extract_resource"),
     "role": (X + "XOrganizationalExtension", "org:role", "literal", "assign_role", "extract_role"),
     "group": (X + "XOrganizationalExtension", "org:group", "literal", "assign_group", "extract_group"),
     "model": (X + "XLifecycleExtension", "lifecycle:model", "literal", "assign_model", "extract_model"),
     "transition": (X + "XLifecycleExtension", "lifecycle:transition", "literal", "assign_transition", "extract_transition"),
     "id": (X + "XIdentityExtension", "identity:id", "id", "assign_id", "extract_id")}
WHERE = {"name": ["log", "trace", "event"], "instance": ["event"], "resource": ["event"], "role": ["event"], "group": ["event"],
         "model": ["log"], "transition": ["event"], "id": ["log", "trace", "event", "literal"]}


def same(a, b):
    return a == b


def val(sx, name, f, lens):
    return sx.C("id.XID")(sx.uuid(name)) if f == "id" else sx.str(name, lens, ws=True)


def stored(f, v):
    """What is expected after setting v, or None when nothing is to change."""
    if f == "id" or v is None:
        return v
    if len(v.strip()) == 0:
        return None
    return v.strip() if f in ("model", "transition") else v


def one(sx, f, where, lens):
    d, el, el2 = D[f], element(sx, where), element(sx, where)
    oth = others(sx, el, d[1])
    sx.check(extract(sx, d, el) is None, "nothing before it is set")
    v = val(sx, "v", f, lens)
    assign(sx, d, el, v)
    s = stored(f, v)
    if s is None:
        sx.check(extract(sx, d, el) is None, "blank text changes nothing")
        check_others(sx, el, oth, 0)
        return
    check_set(sx, d, el, s, same)
    check_others(sx, el, oth, 1)
    sx.check(extract(sx, d, el2) is None, "other elements are not affected")
    w = val(sx, "w", f, lens)
    assign(sx, d, el2, w)
    check_set(sx, d, el, s, same)
    assign(sx, d, el, w)
    t = stored(f, w)
    check_set(sx, d, el, s if t is None else t, same)
    check_others(sx, el, oth, 1)
    assign(sx, d, el, None)
    check_set(sx, d, el, s if t is None else t, same)
    check_others(sx, el, oth, 1)
    sx.observe("value", str(extract(sx, d, el)))


def two(sx, fs):
    el = element(sx, "event")
    exp = {}
    for i, f in enumerate(fs):
        v = val(sx, "v%d" % i, f, [0, 1, 2])
        assign(sx, D[f], el, v)
        if stored(f, v) is not None:
            exp[f] = stored(f, v)
    for f in D:
        if f in exp:
            check_set(sx, D[f], el, exp[f], same)
        else:
            sx.check(extract(sx, D[f], el) is None, "values never set read as nothing")
    sx.check(len(el.get_attributes()) == len(exp), "one attribute per value set")


def long(sx, f):
    el = element(sx, WHERE[f][0])
    c = sx.str("c", [1])
    v = "Handle the request " + c + " of the customer again"
    assign(sx, D[f], el, v)
    check_set(sx, D[f], el, v, same)


def read(sx, f):
    """Values of attributes that exist already, whatever they are."""
    el = element(sx, WHERE[f][0])
    v = val(sx, "v", f, [0, 1, 2])
    put(el, cls(sx, D[f][2])(D[f][1], v))
    sx.check(extract(sx, D[f], el) == v, "an existing attribute is read as it is")
    if f == "id":
        sx.check(sx.C(D[f][0])().extract_name(el) == v, "identity under its other name")


def scenarios(tier):
    q = tier == "quick"
    L = [0, 1, 2, 3] if q else [0, 1, 2, 3, 4, 5]
    r = [("one-%s-%s" % (f, w), lambda sx, f=f, w=w: one(sx, f, w, L)) for f in D for w in WHERE[f]]
    r += [("read-" + f, lambda sx, f=f: read(sx, f)) for f in D]
    r += [("long-" + f, lambda sx, f=f: long(sx, f)) for f in D if f != "id"]
    r += [("two-%s-%s" % (f, g), lambda sx, f=f, g=g: two(sx, [f, g])) for f in D for g in D]
    if not q:
        r += [("three-%s-%s" % (f, g), lambda sx, f=f, g=g: two(sx, [f, g, f])) for f in D for g in D if f != g]
    return r
