"""C42: identity of events and traces."""
from props.common import cls, attr, factory, put, KINDS
BOUNDS = {"quick": "pairs and triples of events with arbitrary identifiers and up to two attributes of any kind; pairs of traces of 0 to 3 events with arbitrary "
                   "identifiers and names; up to 5 events without identifier; all sequences of up to 3 changes of identifier or attributes",
          "thorough": "traces of 0 to 4 events, up to 5 changes"}
OUTSIDE = "comparing traces with lists that are not traces; random identifiers that happen to collide"
ANY_TEXT = True
ASSUMES = ["uuid4 returns fresh identifiers"]


def ident(sx, name):
    u = sx.uuid(name)
    return u, sx.C("id.XID")(u)


def events(sx, kinds):
    """Equality is by identifier alone, whatever the attributes."""
    f = factory(sx)
    (u, i), (w, j) = ident(sx, "u"), ident(sx, "w")
    m = f.create_attribute_map()
    for n, k in enumerate(kinds):
        m["k%d" % n] = attr(sx, "v%d" % n, k, "k%d" % n, small=True)
    a, b = f.create_event(m, i), f.create_event(identity=j)
    same = u == w
    sx.check((a == b) == same, "equal by identifier")
    sx.check((b == a) == same, "symmetric")
    sx.check((a != b) == (not same), "unequal otherwise")
    sx.check((i == j) == same, "identifiers")
    sx.check(a == a and not (a != a), "equal to itself")
    if same:
        sx.check(sx.hash_eq(a, b), "equal hashes")
    sx.check(sx.hash_eq(a, a), "its hash stays")
    for o in (None, i, "x", m, f.create_trace()):
        sx.check(not (a == o) and a != o, "not equal to something else")
    sx.check((b in [a]) == same, "found in a list")
    sx.check((b in {a: 1}) == same, "found in a map")


def triple(sx):
    f = factory(sx)
    es = [f.create_event(identity=ident(sx, "u%d" % i)[1]) for i in range(3)]
    if sx.both(es[0] == es[1], es[1] == es[2]):
        sx.check(es[0] == es[2], "transitive")
    sx.check(len({es[0], es[1], es[2]}) == 1 + (not (es[1] == es[0])) + (not sx.either(es[2] == es[0], es[2] == es[1])), "a set keeps one of each")


def fresh(sx, n):
    f = factory(sx)
    v = sx.str("v", [0, 1])
    es = []
    for i in range(n):
        m = f.create_attribute_map()
        m["k"] = cls(sx, "literal")("k", v)
        es.append([f.create_event, lambda: f.create_event(m), lambda: sx.C("model.XEvent")(m), lambda: es[0].clone() if es else f.create_event(),
                   lambda: sx.C("model.XEvent")()][(i + n) % 5]())
    for i in range(n):
        for j in range(n):
            sx.check((es[i] == es[j]) == (i == j), "events without identifier are all different")


def history(sx, n):
    """Changing an event: the last identifier counts; attributes never do."""
    f = factory(sx)
    (u, i), (w, j) = ident(sx, "u"), ident(sx, "w")
    a, b = f.create_event(identity=i), f.create_event(identity=j)
    cur = u
    for k in range(n):
        op = sx.choice("op%d" % k, ["id", "attr", "attrs"])
        if op == "id":
            cur, x = ident(sx, "x%d" % k)
            a.set_id(x)
        elif op == "attr":
            put(a, attr(sx, "v%d" % k, "literal", "k%d" % k))
        else:
            a.set_attributes(f.create_attribute_map())
        sx.check((a == b) == (cur == w), "equal by the present identifier")
        sx.check((a != b) == (not (cur == w)), "unequal otherwise")
        sx.check(a.get_id().get_uuid() == cur, "the present identifier")
        if cur == w:
            sx.check(sx.hash_eq(a, b), "equal hashes")


def trace(sx, name, n, named):
    f = factory(sx)
    t = f.create_trace()
    us = []
    if named:
        put(t, attr(sx, name + "name", "literal", "concept:name"))
    for i in range(n):
        u, x = ident(sx, "%s%d" % (name, i))
        us.append(u)
        t.append(f.create_event(identity=x))
    return t, us


def traces(sx, n, m):
    t, us = trace(sx, "a", n, False)
    s, ws = trace(sx, "b", m, True)
    same = sx.both(*[u == w for u, w in zip(us, ws)]) if n == m else False
    sx.check((t == s) == same, "equal exactly with equal events in order")
    sx.check((s == t) == same, "symmetric")
    sx.check((t != s) == (not same), "unequal otherwise")
    sx.check(t == t and sx.hash_eq(t, t), "equal to itself")
    if same:
        sx.check(sx.hash_eq(t, s), "equal hashes")
    sx.check((s in [t]) == same, "found in a list")


def grow(sx, n):
    """Traces that share events, changed step by step."""
    f = factory(sx)
    es = [f.create_event(identity=ident(sx, "u%d" % i)[1]) for i in range(n)]
    t, s = f.create_trace(), f.create_trace()
    for e in es:
        t.append(e)
        sx.check(not (t == s), "longer than the other")
        s.append(e)
        sx.check(t == s and sx.hash_eq(t, s), "same events again")
    s.reverse()
    exp = sx.both(*[x == y for x, y in zip(es, reversed(es))])
    sx.check((t == s) == exp, "the order counts")


def has(sx, what, n):
    f = factory(sx)
    x = {"log": f.create_log, "trace": f.create_trace, "event": f.create_event}.get(what)
    x = x() if x else attr(sx, "x", what, "x", small=True)
    sx.check(x.has_attributes() == False, "no attributes at first")
    if what == "log":
        x.append(f.create_trace())
    elif what == "trace":
        x.append(f.create_event())
    elif what in ("list", "container"):
        x.add_to_collection(cls(sx, "literal")("c", "d"))
    sx.check(x.has_attributes() == False, "contents are no attributes")
    k = []
    for i in range(n):
        k.append(sx.str("k%d" % i, [0, 1]))
        put(x, cls(sx, "literal")(k[-1], "y"))
        sx.check(x.has_attributes() == True, "has attributes")
    for i, y in enumerate(k):
        if y in x.get_attributes():
            del x.get_attributes()[y]
        sx.check(x.has_attributes() == (len(x.get_attributes()) > 0), "as long as some are left")
    sx.check(x.has_attributes() == False, "none at the end")
    m = f.create_attribute_map()
    x.set_attributes(m)
    sx.check(x.has_attributes() == False, "an empty map")
    m["z"] = cls(sx, "literal")("z", "y")
    sx.check(x.has_attributes() == True, "a map with an attribute")


def scenarios(tier):
    q = tier == "quick"
    r = [("events-none", lambda sx: events(sx, []))]
    r += [("events-" + k, lambda sx, k=k: events(sx, [k])) for k in KINDS]
    r += [("events-%s-%s" % (k, KINDS[i - 1]), lambda sx, k=k, i=i: events(sx, [k, KINDS[i - 1]])) for i, k in enumerate(KINDS)]
    r.append(("triple", triple))
    r += [("fresh-%d" % n, lambda sx, n=n: fresh(sx, n)) for n in range(2, 6)]
    r += [("history-%d" % n, lambda sx, n=n: history(sx, n)) for n in range(1, 4 if q else 6)]
    M = 4 if q else 5
    r += [("traces-%d-%d" % (n, m), lambda sx, n=n, m=m: traces(sx, n, m)) for n in range(M) for m in range(M)]
    r += [("grow-%d" % n, lambda sx, n=n: grow(sx, n)) for n in range(1, M)]
    r += [("has-%s-%d" % (w, n), lambda sx, w=w, n=n: has(sx, w, n)) for w in ["log", "trace", "event"] + KINDS for n in (0, 1, 2)]
    return r
