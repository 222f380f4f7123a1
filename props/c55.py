"""C55: what the standard extensions define stays the same."""
from props.common import put, cls, snap, check_snap, attr, read_log
from props.setters import element
BOUNDS = {"quick": "every setter of the eight extensions on every kind of element, with arbitrary values (texts of length 1 to 2, all integers and doubles that count, identifiers, "
                   "instants), all ordered pairs of setters; afterwards every change of the attribute set (value, nested attribute, copy, removal); every way to get an extension, in any order",
          "thorough": "texts of length 1 to 4, all triples of setters of different extensions"}
OUTSIDE = "changes made to the definitions themselves"
ANY_TEXT = True
ASSUMES = []
STD = "extension.std."
# name: (extension, setter, key, elements)
S = {"name": ("XConceptExtension", "assign_name", "concept:name", ["log", "trace", "event"]),
     "instance": ("XConceptExtension", "assign_instance", "concept:instance", ["event"]),
     "total": ("XCostExtension", "assign_total", "cost:total", ["trace", "event"]),
     "currency": ("XCostExtension", "assign_currency", "cost:currency", ["trace", "event"]),
     "amount": ("XCostExtension", "assign_amount", "cost:amount", ["event", "literal"]),
     "driver": ("XCostExtension", "assign_driver", "cost:driver", ["event", "literal"]),
     "type": ("XCostExtension", "assign_type", "cost:type", ["event", "literal"]),
     "id": ("XIdentityExtension", "assign_id", "identity:id", ["log", "trace", "event", "literal"]),
     "model": ("XLifecycleExtension", "assign_model", "lifecycle:model", ["log"]),
     "transition": ("XLifecycleExtension", "assign_transition", "lifecycle:transition", ["event"]),
     "standard": ("XLifecycleExtension", "assign_standard_transition", "lifecycle:transition", ["event"]),
     "level": ("XMicroExtension", "assign_level", "micro:level", ["event"]),
     "length": ("XMicroExtension", "assign_length", "micro:length", ["event"]),
     "parent": ("XMicroExtension", "assign_parent_id", "micro:parentId", ["event"]),
     "resource": ("XOrganizationalExtension", "assign_resource", "org:resource", ["event"]),
     "role": ("XOrganizationalExtension", "assign_role", "org:role", ["event"]),
     "group": ("XOrganizationalExtension", "assign_group", "org:group", ["event"]),
     "references": ("XSemanticExtension", "assign_model_references", "semantic:modelReference", ["log", "trace", "event", "literal"]),
     "time": ("XTimeExtension", "assign_timestamp", "time:timestamp", ["event"]),
     "millis": ("XTimeExtension", "assign_timestamp", "time:timestamp", ["event"])}
EXT = {"XConceptExtension": ("Concept", "concept"), "XCostExtension": ("Cost", "cost"), "XIdentityExtension": ("Identity", "identity"),
       "XLifecycleExtension": ("Lifecycle", "lifecycle"), "XMicroExtension": ("Micro", "micro"),
       "XOrganizationalExtension": ("Organizational", "org"), "XSemanticExtension": ("Semantic", "semantic"), "XTimeExtension": ("Time", "time")}
LEVELS = ["log", "trace", "event", "meta"]


def val(sx, name, p, lens=(1,)):
    """(what is given, what the attribute then says)"""
    if p in ("total", "amount"):
        v = sx.float(name, finite=True)
        sx.assume(v > 0)
    elif p in ("level", "length"):
        v = sx.int(name, 1, 10 ** 20)
    elif p in ("id", "parent"):
        v = sx.C("id.XID")(sx.uuid(name))
    elif p == "time":
        v = sx.datetime(name, fields=True, narrow=True, off_fixed=90)
    elif p == "millis":
        v = sx.int(name, 0, 10 ** 12)
        return v, sx.mk_datetime(1970, 1, 1, tz=sx.mk_zone(0)), v
    elif p == "standard":
        v = sx.choice(name, ["start", "complete", "pi_abort"])
    else:
        v = sx.str(name, list(lens))
        sx.assume(len(v.split()) == 1 and len(v.strip()) == len(v))
        if p == "references":
            return [v], v, None
    return v, v, None


def says(sx, a, v, what):
    x = a.get_value()
    if v[2] is not None:
        sx.check(sx.delta_us(x, v[1]) == v[2] * 1000, what)
    elif a.get_key() == "semantic:modelReference":
        sx.check(x.strip() == v[1], what)
    else:
        sx.check(x == v[1], what)


def ext(sx, n):
    return sx.C(STD + n)()


def definitions(sx):
    """All that is defined, with the prototypes used for setting."""
    r = {}
    for n in EXT:
        x = ext(sx, n)
        r[n] = (x, {lv: [(a, snap(a)) for a in getattr(x, "get_%s_attributes" % lv)()] for lv in LEVELS},
                [(a, snap(a)) for k, a in sorted(vars(x).items()) if k.startswith("ATTR_")], x.get_name(), x.get_prefix(), x.get_uri().geturl())
    g = sx.C("info.XGlobalAttributeNameMap")()
    keys = sorted(set(k[2] for k in S.values()))
    return r, [(m, k, g.get_mapping(m).map(k)) for m in ("EN", "DE", "FR", "ES", "PT") for k in keys]


def unchanged(sx, defs, what):
    now = definitions(sx)
    for n, (x, lv, own, name, prefix, uri) in defs[0].items():
        y, lw, now_own, name2, prefix2, uri2 = now[0][n]
        sx.check(x is y and name2 == EXT[n][0] == name and prefix2 == EXT[n][1] == prefix and uri2 == uri, what + ": the extension")
        for k in LEVELS:
            sx.check(len(lv[k]) == len(lw[k]) and all(any(a is b for b, _ in lw[k]) for a, _ in lv[k]), what + ": definitions of a level")
            for a, s in lv[k]:
                check_snap(sx, s, a, what + ": definition")
        sx.check(len(own) == len(now_own) and all(a is b for (a, _), (b, _) in zip(own, now_own)), what + ": prototypes")
        for a, s in own:
            check_snap(sx, s, a, what + ": prototype")
    sx.check(defs[1] == now[1], what + ": names")


def apart(sx, defs, a, what):
    for n, d in defs[0].items():
        for b in [b for lv in d[1].values() for b, _ in lv] + [b for b, _ in d[2]]:
            sx.check(not (a is b), what + ": not the definition itself")
            sx.check(not (a.get_attributes() is b.get_attributes()), what + ": nested attributes of its own")


def assign(sx, p, el, v):
    getattr(ext(sx, S[p][0]), S[p][1])(el, v[0])
    return el.get_attributes()[S[p][2]]


def conforms(sx, defs, p, a):
    n, _, key, _ = S[p]
    ds = [b for lv in defs[0][n][1].values() for b, _ in lv if b.get_key() == key]
    sx.check(len(ds) >= 1, "what can be set is defined")
    sx.check(a.get_key() == key and a.get_extension() is defs[0][n][0], "key and extension of what is set")
    for d in ds:
        sx.check(type(d) is type(a) and d.get_extension() is a.get_extension(), "of the defined kind")


def use(sx, p, where, lens):
    defs = definitions(sx)
    el, o = element(sx, where), element(sx, where)
    v = val(sx, "v", p, lens)
    a = assign(sx, p, el, v)
    conforms(sx, defs, p, a)
    apart(sx, defs, a, "what is set")
    unchanged(sx, defs, "after setting")
    w = val(sx, "w", p)
    a.set_value(w[1]) if w[2] is None else a.set_value_millis(w[0])
    put(a, attr(sx, "n", "discrete", "nested", small=True))
    unchanged(sx, defs, "after changing what was set")
    x = val(sx, "x", p)
    b = assign(sx, p, o, x)
    sx.check(not (a is b) and len(b.get_attributes()) == 0, "another element has an attribute of its own")
    says(sx, b, x, "value on the other element")
    says(sx, a, w, "value on the first element")
    c = a.clone()
    apart(sx, defs, c, "a copy")
    y = val(sx, "y", p)
    c.set_value(y[1]) if y[2] is None else c.set_value_millis(y[0])
    c.get_attributes().clear()
    sx.check(len(a.get_attributes()) == 1, "nested attributes of the copied one")
    says(sx, a, w, "value of the copied one")
    d = assign(sx, p, el, y)
    apart(sx, defs, d, "what is set again")
    says(sx, d, y, "value set again")
    says(sx, b, x, "value on the other element")
    el.get_attributes().clear()
    says(sx, assign(sx, p, el, v), v, "value set after removal")
    unchanged(sx, defs, "in the end")


def several(sx, ps):
    defs = definitions(sx)
    wh = [w for w in ["event", "literal", "trace", "log"] if all(w in S[p][3] for p in ps)]
    els = [element(sx, wh[0] if wh else S[p][3][0]) for p in ps]
    if wh:
        els = [els[0]] * len(ps)
    vs = [val(sx, "v%d" % i, p) for i, p in enumerate(ps)]
    got = []
    for p, e, v in zip(ps, els, vs):
        got.append(assign(sx, p, e, v))
        conforms(sx, defs, p, got[-1])
        apart(sx, defs, got[-1], "what is set")
    for i, p in enumerate(ps):
        if not any(S[p][2] == S[q][2] for q in ps[i + 1:]):
            sx.check(els[i].get_attributes()[S[p][2]] is got[i], "attribute set")
            says(sx, got[i], vs[i], "value set")
    for a in got:
        put(a, cls(sx, "literal")("n", "x"))
    unchanged(sx, defs, "after setting several")


ROUTES = ["class", "name", "prefix", "uri", "index", "attribute", "read"]


def one(sx, n):
    """However it is obtained, in any order, it is the same extension."""
    got = []
    key = [k for k in S if S[k][0] == n][0]
    for i in range(3):
        m = sx.C("extension.XExtensionManager")()
        r = sx.choice("route%d" % i, ROUTES)
        if r == "class":
            x = ext(sx, n)
        elif r == "name":
            x = m.get_by_name(EXT[n][0])
        elif r == "prefix":
            x = m.get_by_prefix(EXT[n][1])
        elif r == "uri":
            x = m.get_by_uri(sx.parse_uri("http://www.xes-standard.org/" + EXT[n][1] + ".xesext"))
        elif r == "index":
            x = m.get_by_index(m.get_index(ext(sx, n)))
        elif r == "attribute":
            e = element(sx, S[key][3][0])
            x = assign(sx, key, e, val(sx, "v%d" % i, key)).get_extension()
        else:
            p = sx.path("r%d.xes" % i)
            sx.write_xml(p, ("log", {}, [("extension", {"name": EXT[n][0], "prefix": EXT[n][1], "uri": "http://www.xes-standard.org/" + EXT[n][1] + ".xesext"}, [], None)], None))
            xs = list(read_log(sx, p).get_extensions())
            sx.check(len(xs) == 1, "one extension is read")
            x = xs[0]
        got.append(x)
    for x in got:
        sx.check(x is got[0] and x.get_prefix() == EXT[n][1] and x.get_name() == EXT[n][0], "the same extension")
        sx.check(len(x.get_defined_attributes()) >= 1, "with its definitions")


def scenarios(tier):
    q = tier == "quick"
    L = (1, 2) if q else (1, 2, 3, 4)
    r = [("use-%s-%s" % (p, w), lambda sx, p=p, w=w: use(sx, p, w, L)) for p in S for w in S[p][3]]
    r += [("two-%s-%s" % (p, o), lambda sx, p=p, o=o: several(sx, [p, o])) for p in S for o in S]
    if not q:
        r += [("three-%s-%s-%s" % (p, o, t), lambda sx, ps=(p, o, t): several(sx, list(ps))) for p in S for o in S for t in S
              if len(set(S[x][0] for x in (p, o, t))) == 3]
    r += [("one-" + n, lambda sx, n=n: one(sx, n)) for n in EXT]
    return r
