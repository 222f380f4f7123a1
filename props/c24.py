"""C24: attribute name maps."""
from props.common import cls
BOUNDS = {"quick": "all sequences of up to 3 registrations in the standard, another or an arbitrary mapping, with keys of length 0 to 1 "
                   "or standard keys, aliases of length 0 to 2; queries by key, attribute, mapping name and mapping object",
          "thorough": "all sequences of up to 4 registrations"}
OUTSIDE = "longer names"
ANY_TEXT = True
ASSUMES = []


def lookup(sx, regs, mapping, key):
    """The alias last registered for key in mapping."""
    for m, k, a in reversed(regs):
        if sx.both(m == mapping, k == key):
            return a
    return None


def expect(sx, regs, mapping, key):
    a = lookup(sx, regs, mapping, key)
    if a is None:
        a = lookup(sx, regs, "EN", key)
    return key if a is None else a


def verify(sx, g, regs, mapping, key, obj=True):
    e = expect(sx, regs, mapping, key)
    sx.check(g.map_safely(key, mapping) == e, "key in a mapping given by name")
    sx.check(g.map_safely(cls(sx, "literal")(key, "v"), mapping) == e, "attribute in a mapping given by name")
    if obj:
        m = g.get_mapping(mapping)
        sx.check(m.get_mapping_name() == mapping, "name of the mapping")
        sx.check(g.get_mapping(mapping) is m, "one mapping per name")
        sx.check(g.map_safely(key, m) == e, "key in a mapping object")
        sx.check(g.map_safely(cls(sx, "discrete")(key, 1), m) == e, "attribute in a mapping object")
        d = lookup(sx, regs, mapping, key)
        sx.check(m.map(key) is None if d is None else m.map(key) == d, "direct mapping")
        sx.check(m.map(cls(sx, "literal")(key, "v")) is None if d is None else m.map(cls(sx, "literal")(key, "v")) == d, "direct mapping of an attribute")
    s = lookup(sx, regs, "EN", key)
    sx.check(g.map(key) is None if s is None else g.map(key) == s, "standard mapping")
    sx.observe("mapped", e)


def standard(sx):
    """What the standard extensions registered; found by its effect."""
    g = sx.C("info.XGlobalAttributeNameMap")()
    sx.C("extension.std.XConceptExtension")()
    sx.C("extension.std.XTimeExtension")()
    return g


def steps(sx, kinds, how):
    g = sx.C("info.XGlobalAttributeNameMap")()
    regs = []
    for i, k in enumerate(kinds):
        m = {"std": "EN", "other": "XX"}.get(k)
        if m is None:
            m = sx.str("m%d" % i, [0, 1])
        key, alias = sx.str("k%d" % i, [0, 1]), sx.str("a%d" % i, [0, 1, 2])
        if how == "global":
            g.register_mapping(m, key, alias)
        elif how == "object":
            g.get_mapping(m).register_mapping(key, alias)
        else:
            g.get_mapping(m).register_mapping(cls(sx, "literal")(key, "v"), alias)
        regs.append((m, key, alias))
    q = sx.str("q", [0, 1])
    verify(sx, g, regs, "EN", q)
    verify(sx, g, regs, "XX", q, False)
    verify(sx, g, regs, "never", q, False)
    verify(sx, g, regs, sx.str("qm", [0, 1]), q)
    sx.check(g.get_standard_mapping() is g.get_mapping("EN"), "the standard mapping")
    for m, _, _ in regs:
        sx.check(sx.either(*[n == m for n in g.get_available_mapping_names()]), "mappings are listed")


def listed(sx):
    g = sx.C("info.XGlobalAttributeNameMap")()
    a, b = sx.str("a", [0, 1, 2]), sx.str("b", [0, 1, 2])
    n0 = len(g.get_available_mapping_names())
    x, y = g.get_mapping(a), g.get_mapping(b)
    sx.check((x is y) == (a == b), "one mapping per name")
    new = (0 if a == "EN" else 1) + (0 if sx.either(b == "EN", b == a) else 1)
    sx.check(len(g.get_available_mapping_names()) == n0 + new, "number of mappings")
    sx.check(len(g.get_available_mappings()) == n0 + new, "number of mapping objects")


def extensions(sx):
    """The standard extensions do not hide new aliases, and keep those of others."""
    g = standard(sx)
    k, a = sx.str("k", [0, 1]), sx.str("a", [0, 1, 2])
    before = [(m, g.map_safely("concept:name", m)) for m in ("EN", "DE", "FR", "ES", "PT")]
    sx.check([b for _, b in before] == ["Name", "Name", "Appellation", "Nombre", "Nome"], "names of concept:name")
    g.register_mapping("DE", k, a)
    for m, b in before:
        sx.check(g.map_safely("concept:name", m) == b, "registering another key changes nothing")
    sx.check(g.map_safely(k, "DE") == a, "the new alias")
    sx.check(g.map_safely(k, "FR") == k and g.map_safely(k, "never") == k, "in its own mapping only")
    sx.check(g.map_safely("concept:name", "never") == "Name", "fallback to the standard mapping")
    g.register_mapping("DE", "concept:name", a)
    sx.check(g.map_safely("concept:name", "DE") == a, "a newer alias replaces the older")
    sx.check(g.map_safely("concept:name", "EN") == "Name" and g.map_safely("concept:name", "FR") == "Appellation", "others stay")
    sx.check(g.map_safely("time:timestamp", "DE") == "Zeitstempel", "other keys stay")


def scenarios(tier):
    import itertools
    q = tier == "quick"
    r = [("listed", listed), ("extensions", extensions)]
    for n in range(0, 4 if q else 5):
        for ks in itertools.product(["std", "other", "any"], repeat=n):
            for how in ("global", "object", "attribute"):
                if n < 4 or how == "global":
                    r.append(("%s-%s" % (how, "-".join(ks) or "none"), lambda sx, ks=ks, how=how: steps(sx, ks, how)))
    return r
