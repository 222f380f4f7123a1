"""C37: wrapped events."""
from props.common import cls, factory, put, attr, check_same_map
BOUNDS = {"quick": "all values of length 1 to 2 (with any white space); all instants; lists of up to 2 model references of length 1 to 2; all "
                   "ordered pairs of properties, set through the wrapper or on the event; three wrappers",
          "thorough": "texts of length 1 to 4, all sequences of three properties"}
OUTSIDE = "blank texts and empty lists of references (they set nothing, as in the extensions themselves); nested wrappers"
ANY_TEXT = True
ASSUMES = []
STD = "extension.std."
# name: (setter, getter, extension, assign, extract, key, stripped)
P = {"name": ("set_name", "get_name", "XConceptExtension", "assign_name", "extract_name", "concept:name", False),
     "instance": ("set_instance", "get_instance", "XConceptExtension", "assign_instance", "extract_instance", "concept:instance", False),
     "time": ("set_time_stamp", "get_time_stamp", "XTimeExtension", "assign_timestamp", "extract_timestamp", "time:timestamp", False),
     "resource": ("set_resource", "get_resourse", "XOrganizationalExtension", "assign_resource", "extract_resource", "org:resource", True),
     "role": ("set_role", "get_role", "XOrganizationalExtension", "assign_role", "extract_role", "org:role", True),
     "group": ("set_group", "get_group", "XOrganizationalExtension", "assign_group", "extract_group", "org:group", True),
     "transition": ("set_transition", "get_transition", "XLifecycleExtension", "assign_transition", "extract_transition", "lifecycle:transition", True),
     "standard": ("set_standard_transition", "get_standard_transition", "XLifecycleExtension", "assign_standard_transition",
                  "extract_standard_transition", "lifecycle:transition", False),
     "references": ("set_model_references", "get_model_references", "XSemanticExtension", "assign_model_references", "extract_model_references",
                    "semantic:modelReference", False),
     "uris": ("set_model_references_uris", "get_model_references_uris", "XSemanticExtension", "assign_model_reference_uris",
              "extract_model_reference_uris", "semantic:modelReference", False)}


def val(sx, p, name, lens=(1,), ws=True):
    if p == "time":
        return sx.datetime(name, fields=True, narrow=True, off_fixed=90)
    if p == "standard":
        return sx.choice(name, ["start", "complete", "suspend", "pi_abort"])
    if p == "references":
        r = [sx.str("%s%d" % (name, i), [1, 2], chars="abcXYZ:/#0") for i in range(sx.choice(name + "n", [1, 2]))]
        return r
    if p == "uris":
        return [sx.parse_uri("http://" + sx.str("%s%d" % (name, i), [1], chars="abcXYZ") + ".org/") for i in range(sx.choice(name + "n", [1, 2]))]
    v = sx.str(name, list(lens), ws=ws)
    sx.assume(len(v.strip()) > 0)
    return v


def seen(p, v, through):
    """What is read after setting v: the wrapper strips some values."""
    if P[p][6] and (through == "wrapper" or p == "transition"):
        return v.strip()
    return v


def same(sx, p, a, b, what):
    if p in ("references", "uris"):
        sx.check(len(a) == len(b), what + ": number")
        for x, y in zip(a, b):
            sx.check(x == y, what)
    elif p == "time":
        sx.check(sx.delta_us(a, b) == 0, what)
    else:
        sx.check(a == b, what)


def get(sx, w, p):
    return getattr(w, P[p][1])()


def look(sx, e, p):
    return getattr(sx.C(STD + P[p][2])(), P[p][4])(e)


def put_value(sx, w, e, p, v, through):
    if through == "wrapper":
        getattr(w, P[p][0])(v)
    else:
        getattr(sx.C(STD + P[p][2])(), P[p][3])(e, v)


def wrapped(sx, others=1):
    e = factory(sx).create_event()
    if others:
        put(e, cls(sx, "discrete")("other", 7))
    return e, sx.C(STD + "XExtendedEvent").wrap(e)


def absent(sx, w, e, keep=()):
    for q in P:
        if not any(P[q][5] == P[k][5] for k in keep):
            x, y = get(sx, w, q), look(sx, e, q)
            sx.check((x is None or len(x) == 0) and (y is None or len(y) == 0), "nothing is set: " + q)


def seq(sx, props, through, lens):
    b = sx.choice("carries", [1, 0])
    e, w = wrapped(sx, b)
    absent(sx, w, e)
    state = {}
    for i, (p, th) in enumerate(zip(props, through)):
        v = val(sx, p, "v%d" % i, lens)
        put_value(sx, w, e, p, v, th)
        for q in [q for q in state if P[q][5] == P[p][5]]:
            del state[q]
        state[p] = seen(p, v, th)
        for q, x in state.items():
            same(sx, q, get(sx, w, q), x, "through the wrapper: " + q)
            same(sx, q, look(sx, e, q), x, "on the event: " + q)
        absent(sx, w, e, list(state))
        m = e.get_attributes()
        sx.check(len(m) == len(state) + b and (not b or m["other"].get_value() == 7), "other attributes stay")
        for q in state:
            sx.check(m[P[q][5]].get_extension() is sx.C(STD + P[q][2])(), "extension of the attribute")


def bare(sx):
    """Copies of events without attributes are independent as well."""
    e = factory(sx).create_event()
    w = sx.C(STD + "XExtendedEvent").wrap(e)
    c = w.clone()
    absent(sx, c, e)
    v, u = val(sx, "name", "v"), val(sx, "name", "u")
    c.set_name(v)
    sx.check(c.get_name() == v and w.get_name() is None and len(e.get_attributes()) == 0, "the copy is independent")
    w.set_name(u)
    sx.check(c.get_name() == v and w.get_name() == u and look(sx, e, "name") == u, "so is the event")


def identity(sx):
    e, w = wrapped(sx)
    v = val(sx, "name", "v")
    w.set_name(v)
    w2 = sx.C(STD + "XExtendedEvent").wrap(e)
    w3 = w.clone()
    ws = [w, w2, w3]
    for i in range(3):
        for j in range(3):
            sx.check((ws[i] == ws[j]) == (i == j), "equal to itself only")
            sx.check((ws[i] != ws[j]) == (i != j), "unequal otherwise")
        sx.check(ws[i].get_name() == v, "name of each")
        sx.check(hash(ws[i]) == hash(ws[i]), "hash")
        sx.check(not (ws[i] == e) and not (ws[i] == v), "not equal to something else")
    u = val(sx, "name", "u")
    w3.set_name(u)
    sx.check(w3.get_name() == u, "the copy has a new name")
    sx.check(w.get_name() == v and w2.get_name() == v and look(sx, e, "name") == v, "the event keeps its name")
    t = val(sx, "name", "t")
    w2.set_name(t)
    sx.check(w.get_name() == t and look(sx, e, "name") == t and w3.get_name() == u, "two wrappers of an event see the same")
    sx.check(w.get_id() != w2.get_id() and w.get_id() != w3.get_id(), "identifiers differ")


def attributes(sx, n):
    e, w = wrapped(sx)
    for i in range(n):
        put(w, attr(sx, "v%d" % i, "literal", "k%d" % i, sx.C(STD + ["XConceptExtension", "XTimeExtension"][i])()))
    sx.check(w.get_attributes() is e.get_attributes() and len(e.get_attributes()) == n + 1, "attributes of the event")
    sx.check(len(w.get_extensions()) == n and all(x in w.get_extensions() for x in e.get_extensions()), "extensions of the event")
    sx.check(w.has_attributes() is True, "has attributes")
    m = factory(sx).create_attribute_map()
    k = sx.choice("k", [0, 1])
    if k:
        m["z"] = cls(sx, "literal")("z", "1")
    w.set_attributes(m)
    sx.check(len(e.get_attributes()) == k and w.has_attributes() == bool(k) and e.has_attributes() == bool(k), "setting the attributes")


def scenarios(tier):
    q = tier == "quick"
    L = (1, 2) if q else (1, 2, 3, 4)
    r = []
    for p in P:
        for th in ("wrapper", "event"):
            r.append(("one-%s-%s" % (p, th), lambda sx, p=p, th=th: seq(sx, [p], [th], L)))
            for p2 in P:
                r.append(("two-%s-%s-%s" % (p, p2, th), lambda sx, p=p, p2=p2, th=th: seq(sx, [p, p2], [th, "wrapper"], (1,))))
                if not q:
                    for p3 in P:
                        r.append(("three-%s-%s-%s-%s" % (p, p2, p3, th), lambda sx, p=p, p2=p2, p3=p3, th=th: seq(
                            sx, [p, p2, p3], ["wrapper", th, "wrapper"], (1,))))
    r += [("identity", identity), ("bare", bare)]
    r += [("attributes-%d" % n, lambda sx, n=n: attributes(sx, n)) for n in range(3)]
    return r
