"""C35: factories."""
from props.common import cls, attr, factory, put, value, same_value, KINDS, VALUE_KINDS, COLLECTIONS, check_same_map
BOUNDS = {"quick": "every kind of object with arbitrary key (length 0 to 4), value and one of three extensions; elements with up to 3 given attributes; "
                   "documents with two attributes of any kinds on every level, nested, in lists and in globals, read by all four parsers with a factory that is given, "
                   "registered or both", "thorough": "keys of length 0 to 6"}
OUTSIDE = "the standard values (names, transitions, times, resources) that the MXML parser sets through their extensions; parsers made before a factory was registered"
ANY_TEXT = True
ASSUMES = []
EXTS = [None, "XConceptExtension", "XTimeExtension"]


def ext_of(sx, name="ext"):
    x = sx.choice(name, EXTS)
    return sx.C("extension.std." + x)() if x else None


def create(sx, f, kind, key, val, ext):
    m = getattr(f, "create_attribute_" + kind)
    return m(key, ext) if kind in COLLECTIONS else m(key, val, ext)


def attribute(sx, kind, lens):
    f = sx.C("factory.XFactory")()
    key, ext = sx.str("key", lens), ext_of(sx)
    v = None if kind in COLLECTIONS else value(sx, "v", kind)
    a = create(sx, f, kind, key, v, ext)
    sx.check(type(a) is cls(sx, kind), "kind")
    sx.check(a.get_key() == key, "key")
    sx.check(a.get_extension() is ext, "extension")
    if kind in COLLECTIONS:
        sx.check(len(a.get_collection()) == 0, "no contents")
    else:
        sx.check(same_value(sx, kind, a.get_value(), v), "value")
    sx.check(len(a.get_attributes()) == 0 and not a.has_attributes(), "nothing nested")
    b = create(sx, f, kind, key, v, None)
    c = getattr(f, "create_attribute_" + kind)(key) if kind in COLLECTIONS else getattr(f, "create_attribute_" + kind)(key, v)
    put(b, cls(sx, "literal")("x", "y"))
    if kind in COLLECTIONS:
        b.add_to_collection(cls(sx, "literal")("x", "y"))
        sx.check(len(a.get_collection()) == 0 and len(c.get_collection()) == 0, "contents are not shared")
    sx.check(len(a.get_attributes()) == 0 and len(c.get_attributes()) == 0, "nested attributes are not shared")
    sx.check(c.get_extension() is None and b.get_extension() is None and c.get_key() == key, "without extension")


def millis(sx):
    """A timestamp may be given in milliseconds."""
    v = sx.int("v", -10 ** 13, 10 ** 14)
    a = sx.C("factory.XFactory")().create_attribute_timestamp("k", v)
    sx.check(sx.delta_us(a.get_value(), sx.mk_datetime(1970, 1, 1, tz=sx.mk_zone(0))) == 1000 * v, "instant")


def element(sx, what, n):
    f = sx.C("factory.XFactory")()
    make = getattr(f, "create_" + what)
    if n is None:
        x, y = make(), make()
        sx.check(type(x) is sx.C("model.X" + what.capitalize()), "type")
        sx.check(len(x.get_attributes()) == 0, "no attributes")
        put(x, attr(sx, "v", "literal", "k"))
        sx.check(len(y.get_attributes()) == 0 and len(make().get_attributes()) == 0, "attributes are not shared")
        sx.check(what == "event" or len(x) == 0, "empty")
        return
    m = f.create_attribute_map()
    sx.check(len(m) == 0, "an empty map")
    exp = []
    for i in range(n):
        k = sx.str("k%d" % i, [0, 1])
        for a in exp:
            sx.assume(a.get_key() != k)
        a = attr(sx, "v%d" % i, KINDS[(i * 3 + n) % 8], k, small=True)
        m[k] = a
        exp.append(a)
    x = make(m)
    sx.check(type(x) is sx.C("model.X" + what.capitalize()), "type")
    got = x.get_attributes()
    sx.check(len(got) == n, "number of attributes")
    for a in exp:
        sx.check(got[a.get_key()] is a, "the given attribute")
    sx.check(x.has_attributes() == (n > 0), "has attributes")
    sx.check(len(make().get_attributes()) == 0, "the next one has none")


def identity(sx, n):
    f = sx.C("factory.XFactory")()
    u, w = sx.uuid("u"), sx.uuid("w")
    i, j = sx.C("id.XID")(u), sx.C("id.XID")(w)
    m = f.create_attribute_map()
    for k in range(n):
        m["k%d" % k] = attr(sx, "v%d" % k, "literal", "k%d" % k)
    give = sx.choice("give", ["both", "identity"])
    e = f.create_event(m, i) if give == "both" else f.create_event(identity=i)
    g = f.create_event(m, j)
    sx.check(e.get_id() == i and e.get_id().get_uuid() == u, "the given identifier")
    sx.check(g.get_id() == j, "the given identifier")
    sx.check((e == g) == (u == w), "events are equal by identifier")
    sx.check(len(e.get_attributes()) == (n if give == "both" else 0), "the given attributes")
    a, b, c, d = f.create_event(), f.create_event(m), f.create_event(), f.create_event(m)
    ids = [x.get_id() for x in (a, b, c, d)]
    sx.check(all(ids[p] != ids[q] for p in range(4) for q in range(p)), "fresh identifiers otherwise")


def recorder(sx):
    base = sx.C("factory.XFactory")

    class Own(base):
        made = []
    own = Own()
    own.made = []

    def wrap(name):
        inner = getattr(base, name)

        def f(*a, **k):
            r = inner(*a, **k)
            own.made.append(r)
            return r
        return f
    for n in ["create_log", "create_trace", "create_event"] + ["create_attribute_" + k for k in KINDS]:
        setattr(own, n, wrap(n))
    return own


def mine(own, x):
    return any(x is y for y in own.made)


def check_made(sx, own, a, yes, what):
    sx.check(mine(own, a) == yes, what)
    for b in a.get_attributes().values():
        check_made(sx, own, b, yes, what + "/" + type(b).__name__)
    if hasattr(a, "get_collection"):
        for b in a.get_collection():
            check_made(sx, own, b, yes, what + "[]" + type(b).__name__)


TEXT = {"literal": ("string", "x"), "boolean": ("boolean", "true"), "continuous": ("float", "1.5"), "discrete": ("int", "7"),
        "timestamp": ("date", "2020-01-01T00:00:00.000Z"), "id": ("id", "a5a5a5a5-0000-4000-8000-000000000001"), "list": ("list", None),
        "container": ("container", None)}


def xatt(sx, kind, key, kids=()):
    tag, v = TEXT[kind]
    at = {"key": key}
    kids = list(kids)
    if v is not None:
        at["value"] = v
    elif kind == "list":
        return (tag, at, [("values", {}, [xatt(sx, "literal", "c"), xatt(sx, "discrete", "d")])] + kids)
    return (tag, at, kids)


def doc_xes(sx, kinds, v):
    def atts(p):
        return [xatt(sx, k, "%s%d" % (p, i), [xatt(sx, kinds[(i + 1) % len(kinds)], "n", [("string", {"key": "deep", "value": v})])])
                for i, k in enumerate(kinds)] + [("string", {"key": "s", "value": v})]
    return ("log", {"xes.version": "1.0"}, [("global", {"scope": "trace"}, atts("gt")), ("global", {"scope": "event"}, atts("ge"))] + atts("l") +
            [("trace", {}, atts("t") + [("event", {}, atts("e")), ("event", {}, atts("f"))]), ("trace", {}, [("event", {}, [])])])


def doc_mxml(sx, v):
    d = ("Data", {}, [("Attribute", {"name": "k"}, [], "v" + v), ("Attribute", {"name": "m"}, [], "w")])
    e = ("AuditTrailEntry", {}, [d, ("WorkflowModelElement", {}, [], "a"), ("EventType", {}, [], "start")])
    return ("WorkflowLog", {}, [("Source", {"program": "p"}, [d]), ("Process", {"id": "p", "description": "d"}, [d, (
        "ProcessInstance", {"id": "i", "description": "d"}, [d, e, e])])])


STD = ("concept:name", "lifecycle:transition", "lifecycle:model")


def reader(sx, fmt, gz, how, kinds):
    own, other = recorder(sx), recorder(sx)
    v = sx.str("v", [1], chars="abcXYZ.")
    p = sx.path("log." + fmt)
    sx.write_xml(p, doc_xes(sx, kinds, v) if fmt == "xes" else doc_mxml(sx, v))
    if gz:
        sx.write_gz(p, sx.path("log." + fmt + ".gz"))
        p = sx.path("log." + fmt + ".gz")
    P = sx.C("data_in." + {"xes": "XesXml", "mxml": "XMxml"}[fmt] + ("GZIP" if gz else "") + "Parser")
    reg = sx.C("factory.XFactoryRegistry")()
    if how == "given":
        parser, used = P(own), own
    elif how == "registered":
        reg.set_current_default(own)
        parser, used = P(), own
    elif how == "default":
        parser, used = P(), None
    else:
        reg.set_current_default(other)
        parser, used = P(own), own
    with sx.open(p, "r") as f:
        logs = list(parser.parse(f))
    sx.check(len(logs) == 1, "one log")
    for log in logs:
        els = [log] + list(log) + [e for t in log for e in t]
        sx.check(len(els) == (6 if fmt == "xes" else 4), "elements")
        for x in els:
            sx.check(mine(own, x) == (used is own), "element made by the factory: " + type(x).__name__)
            sx.check(not mine(other, x), "element not made by the other one")
            n = 0
            for a in x.get_attributes().values():
                if fmt == "mxml" and a.get_key() in STD:
                    continue
                n += 1
                check_made(sx, own, a, used is own, "attribute made by the factory: " + type(a).__name__)
                if used is None:
                    sx.check(type(a).__module__.startswith("opyenxes"), "attribute of the library")
            if fmt == "xes" and x is not els[-1]:
                sx.check(x is els[2] or n == len(kinds) + 1, "number of attributes")
            if fmt == "mxml":
                sx.check(n == {"XLog": 4, "XTrace": 3, "XEvent": 2}[type(x).__name__], "number of attributes")
        if fmt == "xes":
            for g in (log.get_global_trace_attributes(), log.get_global_event_attributes()):
                sx.check(len(g) == len(kinds) + 1, "number of globals")
                for a in g:
                    check_made(sx, own, a, used is own, "global made by the factory: " + type(a).__name__)
    if how == "both":
        sx.check(not [x for x in other.made if type(x).__name__ in ("XLog", "XTrace", "XEvent")], "the registered factory makes no element")


def scenarios(tier):
    q = tier == "quick"
    L = [0, 1, 2, 4] if q else [0, 1, 2, 3, 4, 6]
    r = [("attribute-" + k, lambda sx, k=k: attribute(sx, k, L)) for k in KINDS]
    r.append(("millis", millis))
    for w in ("log", "trace", "event"):
        for n in (None, 0, 1, 2, 3):
            r.append(("element-%s-%s" % (w, n), lambda sx, w=w, n=n: element(sx, w, n)))
    r += [("identity-%d" % n, lambda sx, n=n: identity(sx, n)) for n in range(3)]
    for how in ("given", "registered", "both", "default"):
        for gz in (0, 1):
            r.append(("mxml-%s-%d" % (how, gz), lambda sx, how=how, gz=gz: reader(sx, "mxml", gz, how, [])))
            for i in range(4):
                ks = [[KINDS[2 * i], k] for k in KINDS] + [[KINDS[2 * i + 1], k] for k in KINDS]
                for k in ks:
                    r.append(("xes-%s-%d-%s" % (how, gz, "-".join(k)), lambda sx, how=how, gz=gz, k=k: reader(sx, "xes", gz, how, k)))
    return r
