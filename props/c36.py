"""C36: reading extension definitions."""
from props.common import cls
BOUNDS = {"quick": "definitions with all sequences of up to 3 levels (each level present, absent or repeated) and all orders of four of up to 3 attributes of any of the six types with up to 2 "
                   "aliases; arbitrary names, prefixes, keys and aliases of length 0 to 4; tags in three case variants; two definitions one after the other",
          "thorough": "texts of length 0 to 6"}
OUTSIDE = "definitions without name, prefix, URI or key, attributes outside of the four levels, definitions fetched from the network"
ASSUMES = ["xml.sax reports documents as modelled in symx/xmlstub.py (checked on witnesses at every run)"]
TYPES = {"string": "literal", "date": "timestamp", "int": "discrete", "float": "continuous", "boolean": "boolean", "id": "id"}
LEVELS = {"log": "get_log_attributes", "trace": "get_trace_attributes", "event": "get_event_attributes", "meta": "get_meta_attributes"}
CASES = {"std": lambda s: s, "lower": str.lower, "upper": str.upper}


def build(sx, head, levels, case):
    """levels: [(level, [(type, key, [(language, alias)])])]"""
    c = CASES[case]
    return (c("xesextension"), dict(zip(("name", "prefix", "uri"), head)), [
        (c(lv), {}, [(c(t), {"key": k}, [(c("alias"), {"mapping": m, "name": n}) for m, n in al]) for t, k, al in atts])
        for lv, atts in levels])


def parse(sx, head, levels, case, name):
    p = sx.path(name)
    sx.write_xml(p, build(sx, head, levels, case))
    return sx.C("extension.XExtensionParser")().parse(p)


def verify(sx, x, head, levels):
    sx.check(x.get_name() == head[0], "name")
    sx.check(x.get_prefix() == head[1], "prefix")
    sx.check(x.get_uri() == sx.parse_uri(head[2]), "URI")
    allx = []
    for lv, get in LEVELS.items():
        exp = []
        for l, atts in levels:
            if l == lv:
                for t, k, al in atts:
                    if t == "id" or not any(t == u and sx.both(k == j) for u, j in exp):
                        exp.append((t, k))
        got = list(getattr(x, get)())
        sx.check(len(got) == len(exp), "number of attributes of level " + lv)
        for t, k in exp:
            sx.check(any(type(a) is cls(sx, TYPES[t]) and a.get_key() == head[1] + ":" + k for a in got), "attribute of level " + lv)
        for a in got:
            sx.check(a.get_extension() is x, "belongs to the extension")
        allx += got
    sx.check(all(a in x.get_defined_attributes() for a in allx), "all are defined by the extension")


def check_alias(sx, defs):
    """defs: [(prefix, levels)] in the order read."""
    g = sx.C("info.XGlobalAttributeNameMap")()
    regs = []
    for prefix, levels in defs:
        for l, atts in levels:
            for t, k, al in atts:
                for m, n in al:
                    regs.append((m, prefix + ":" + k, n))
    for i, (m, k, n) in enumerate(regs):
        last = n
        for m2, k2, n2 in regs[i + 1:]:
            if sx.both(m2 == m, k2 == k):
                last = n2
        sx.check(g.get_mapping(m).map(k) == last, "alias for its attribute and language")
    for prefix, levels in defs:
        for l, atts in levels:
            for t, k, al in atts:
                for m in ("EN", "DE", "NL"):
                    if not any(sx.both(m == a, prefix + ":" + k == b) for a, b, _ in regs):
                        sx.check(g.get_mapping(m).map(prefix + ":" + k) is None, "no other alias")


HEAD = ("Own", "own", "http://own.org/own.xesext")


def head(sx, lens):
    h = (sx.str("name", lens), sx.str("prefix", lens), "http://" + sx.str("host", [1, 2], chars="abcXYZ09-.") + ".org/" + sx.str("file", [0, 1], chars="abZ0_"))
    lv = [("event", [(t, "k" + t, [("EN", "Kay " + t)]) for t in TYPES]), ("log", [(t, t + "K", []) for t in TYPES])]
    verify(sx, parse(sx, h, lv, "std", "a.xesext"), h, lv)
    check_alias(sx, [(h[1], lv)])


def levels(sx, seq, case):
    """Levels in the order of seq, each with attributes of two types."""
    ts = list(TYPES)
    k = sx.str("k", [1])
    lv = []
    n = 0
    for i, (l, m) in enumerate(seq):
        atts = []
        for j in range(m):
            atts.append((ts[n % 6], "%s%d" % (k, n), [("EN", "e%d" % n + k), ("DE", "d%d" % n)][:(n + 1) % 3]))
            n += 1
        lv.append((l, atts))
    x = parse(sx, HEAD, lv, case, "a.xesext")
    verify(sx, x, HEAD, lv)
    check_alias(sx, [("own", lv)])


def attributes(sx, level, t, u, lens):
    """Two attributes, whose keys may be the same, on one level, and one on another."""
    k, j = sx.str("k", lens), sx.str("j", lens)
    other = {"log": "meta", "trace": "log", "event": "trace", "meta": "event"}[level]
    lv = [(level, [(t, k, []), (u, j, [])]), (other, [(t, k, [])])]
    verify(sx, parse(sx, HEAD, lv, "std", "a.xesext"), HEAD, lv)


def aliases(sx, n1, n2, lens):
    def al(p, n):
        return [(sx.choice("%sm%d" % (p, i), ["EN", "DE", "xx"]), sx.str("%sn%d" % (p, i), lens)) for i in range(n)]
    k, j = sx.str("k", [1]), sx.str("j", [1])
    lv = [("trace", [("string", k, al("a", n1)), ("int", j, al("b", n2))]), ("event", [("string", "k", [])])]
    verify(sx, parse(sx, HEAD, lv, "std", "a.xesext"), HEAD, lv)
    check_alias(sx, [("own", lv)])


def twice(sx):
    """A second definition does not see anything of the first one."""
    k = sx.str("k", [1])
    lv1 = [("meta", [("string", k, [("EN", "one")])]), ("log", [("int", "l", [])])]
    lv2 = [("event", [("date", k, [("DE", "zwei")])])]
    h2 = (sx.str("name", [1]), "two", "http://two.org/")
    x = parse(sx, HEAD, lv1, "std", "a.xesext")
    y = parse(sx, h2, lv2, "std", "b.xesext")
    verify(sx, x, HEAD, lv1)
    verify(sx, y, h2, lv2)
    check_alias(sx, [("own", lv1), ("two", lv2)])


def scenarios(tier):
    q = tier == "quick"
    L = [0, 1, 2, 3, 4] if q else list(range(7))
    r = [("head", lambda sx: head(sx, L)), ("twice", twice)]
    lv = list(LEVELS)
    seqs = [[], [(l, 0) for l in lv], [(l, 1) for l in lv], [(l, 2) for l in lv], [(l, 1) for l in reversed(lv)]]
    seqs += [[(a, 1), (b, 2)] for a in lv for b in lv] + [[(a, n)] for a in lv for n in (0, 1, 2)] + [[(a, 0), (b, 1)] for a in lv for b in lv if a != b]
    import itertools
    seqs += [[(a, 1), (b, 1), (c, 3)] for a in lv for b in lv for c in lv] + [[(a, 1) for a in p] for p in itertools.permutations(lv)]
    for i, s in enumerate(seqs):
        if s in seqs[:i]:
            continue
        for c in CASES:
            r.append(("levels-%s-%s" % ("-".join("%s%d" % x for x in s) or "none", c), lambda sx, s=s, c=c: levels(sx, s, c)))
    for l in lv:
        for t in TYPES:
            for u in TYPES:
                r.append(("attributes-%s-%s-%s" % (l, t, u), lambda sx, l=l, t=t, u=u: attributes(sx, l, t, u, [0, 1, 2] if q else [0, 1, 2, 3])))
    for a in range(3):
        for b in range(3):
            r.append(("aliases-%d-%d" % (a, b), lambda sx, a=a, b=b: aliases(sx, a, b, [0, 1])))
    return r
