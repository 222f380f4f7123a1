"""C22: extension manager."""
BOUNDS = {"quick": "all sequences of up to 4 registrations of extensions with arbitrary URIs (or that of a standard extension), names and prefixes of length 0 to 1 "
                   "(or standard ones); one queried name, prefix, URI and index",
          "thorough": "all sequences of up to 5 registrations"}
OUTSIDE = "lookups while extensions are fetched from the network or the cache (C39, C91)"
ANY_TEXT = True
ASSUMES = []
STD = [("Concept", "concept", "concept"), ("Cost", "cost", "cost"), ("Identity", "identity", "identity"), ("Lifecycle", "lifecycle", "lifecycle"),
       ("Micro", "micro", "micro"), ("Organizational", "org", "org"), ("Semantic", "semantic", "semantic"), ("Time", "time", "time")]


def std_uri(sx, u):
    return sx.parse_uri("http://www.xes-standard.org/%s.xesext" % u)


def model(sx, cur, ext):
    """cur: current extensions in index order."""
    for i, x in enumerate(cur):
        if x.get_uri() == ext.get_uri():
            cur[i] = ext
            return
    cur.append(ext)


def verify(sx, m, cur, old, qn, qp, qu, qi):
    for i, x in enumerate(cur):
        sx.check(m.get_by_uri(x.get_uri()) is x, "found by URI")
        sx.check(m.get_by_index(i) is x, "found by index")
        sx.check(m.get_index(x) == i, "index of the extension")
        first = [y for y in cur if y.get_name() == x.get_name()][0]
        sx.check(m.get_by_name(x.get_name()) is first, "found by name")
        first = [y for y in cur if y.get_prefix() == x.get_prefix()][0]
        sx.check(m.get_by_prefix(x.get_prefix()) is first, "found by prefix")
    for x in old:
        sx.check(m.get_by_uri(x.get_uri()) is not x, "a replaced extension is not found any more")
    for i in (-1, len(cur), len(cur) + 1):
        sx.check(m.get_by_index(i) is None, "no extension of an unknown index")
    if qi is not None:
        sx.check((m.get_by_index(qi) is None) == sx.either(qi < 0, qi >= len(cur)), "index in range")
    if sx.both(*[x.get_name() != qn for x in cur]):
        sx.check(m.get_by_name(qn) is None, "no extension of an unknown name")
    if sx.both(*[x.get_prefix() != qp for x in cur]):
        sx.check(m.get_by_prefix(qp) is None, "no extension of an unknown prefix")
    if sx.both(*[x.get_uri() != qu for x in cur]):
        sx.check(m.get_by_uri(qu) is None, "no extension of an unknown URI")
        sx.check(m.get_index(sx.C("extension.XExtension")("x", "x", qu)) == -1, "index of an unknown extension")


def start(sx):
    m = sx.C("extension.XExtensionManager")()
    cur = [m.get_by_index(i) for i in range(8)]
    for x in cur:
        sx.check(x is not None, "eight standard extensions")
    for n, p, u in STD:
        x = m.get_by_prefix(p)
        sx.check(x is not None and x is m.get_by_name(n) and x is m.get_by_uri(std_uri(sx, u)), "standard extension " + n)
        sx.check(x.get_name() == n and x.get_prefix() == p, "name and prefix of " + n)
    return m, cur


def standard(sx):
    m, cur = start(sx)
    verify(sx, m, cur, [], sx.str("qn", [0, 1, 4, 7]), sx.str("qp", [0, 1, 3, 4, 7]), sx.uri("qu"), sx.int("qi", -20, 20))
    sx.check(sx.C("extension.XExtensionManager")() is m, "one manager")


def steps(sx, kinds, query):
    m, cur = start(sx)
    E = sx.C("extension.XExtension")
    old = []
    for i, k in enumerate(kinds):
        u = std_uri(sx, "time") if k == "std" else sx.uri("u%d" % i)
        n = "Time" if k == "named" else sx.str("n%d" % i, [0, 1])
        p = "time" if k == "named" else sx.str("p%d" % i, [0, 1])
        x = E(n, p, u)
        m.register(x)
        before = list(cur)
        model(sx, cur, x)
        old += [y for y in before if y not in cur or not [z for z in cur if z is y]]
    verify(sx, m, cur, old, sx.str("qn", [0, 1]) if query else "none", "none", sx.uri("qu") if query else std_uri(sx, "none"), None)
    m.register(cur[-1])
    verify(sx, m, cur, old, "none", "none", std_uri(sx, "none"), None)


def scenarios(tier):
    import itertools
    r = [("standard", standard)]
    K = ["new", "std", "named"]
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for ks in itertools.product(K, repeat=n):
            if n < 4 or len([k for k in ks if k == "new"]) in (1, 2, 3) or tier != "quick":
                r.append(("steps-" + "-".join(ks), lambda sx, ks=ks: steps(sx, ks, len(ks) < 3)))
    return r
