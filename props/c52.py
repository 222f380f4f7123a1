"""C52: elements hold exactly what was put into them."""
from props.common import KINDS, attr, cls, factory, put
BOUNDS = {"quick": "logs, traces, events and attributes of every kind, made in every way the library offers; all sequences of up to 4 additions, replacements, removals and "
                   "exchanges of attributes with arbitrary keys (length 0 to 1); logs and traces with all sequences of up to 4 list operations",
          "thorough": "sequences of up to 5"}
OUTSIDE = "maps other than XAttributeMap"
ANY_TEXT = True
ASSUMES = []
OWN = ["log", "trace", "event", "literal", "list", "element"]


def makers(sx, what):
    f = factory(sx)
    if what in ("log", "trace", "event"):
        c = sx.C("model." + {"log": "XLog", "trace": "XTrace", "event": "XEvent"}[what])
        r = [getattr(f, "create_" + what), lambda: c(f.create_attribute_map()), lambda: c(None)]
        return r + ([c, lambda: c(identity=sx.C("id.XID")())] if what == "event" else [])
    if what == "element":
        e, a = sx.C("model.XElement"), sx.C("model.XAttributable")
        return [e, e, a, a]
    if what == "list":
        return [lambda: f.create_attribute_list("k", None), lambda: cls(sx, "container")("k"), lambda: cls(sx, "list")("k")]
    return [lambda: f.create_attribute_literal("k", "v", None), lambda: cls(sx, "discrete")("k", 1), lambda: cls(sx, "boolean")("k", True)]


def check_map(sx, el, exp, what):
    m = el.get_attributes()
    sx.check(len(m) == len(exp), what + ": number of attributes")
    for k, a in exp:
        sx.check(k in m and m[k] is a, what + ": attribute under its key")
    for (k, a), (l, b) in zip(list(m.items()), exp):
        sx.check(k == l and a is b, what + ": order of attributes")
    sx.check(el.has_attributes() == (len(exp) > 0) and m.is_empty() == (len(exp) == 0), what + ": has attributes")


def history(sx, what, n):
    """Several elements of a type, changed in turns: each one has its own attributes."""
    f = factory(sx)
    els = [m() for m in makers(sx, what)]
    exp = [[] for _ in els]
    for i, e in enumerate(els):
        check_map(sx, e, [], "new")
    t = 0
    for k in range(n):
        op = sx.choice("op%d" % k, ["put", "del", "set", "next"])
        if op == "next":
            t = (t + 1) % len(els)
            continue
        e, x = els[t], exp[t]
        if op == "put":
            key = sx.str("k%d" % k, [0, 1])
            a = attr(sx, "v%d" % k, KINDS[k % 8], key, small=True)
            e.get_attributes()[key] = a
            for i, (j, _) in enumerate(x):
                if j == key:
                    x[i] = (j, a)
                    break
            else:
                x.append((key, a))
        elif op == "del":
            if not x:
                continue
            del e.get_attributes()[x[0][0]]
            del x[0]
        else:
            m = f.create_attribute_map()
            exp[t] = []
            for j in range(sx.choice("n%d" % k, [0, 2])):
                a = cls(sx, "discrete")("s%d" % j, k)
                m["s%d" % j] = a
                exp[t].append(("s%d" % j, a))
            e.set_attributes(m)
            sx.check(e.get_attributes() is m, "the map that was set")
        for i, (y, z) in enumerate(zip(els, exp)):
            check_map(sx, y, z, "after a change" if i == t else "another element")


def given(sx, what):
    """Elements made with attributes; maps made from other maps."""
    f = factory(sx)
    k, v = sx.str("k", [0, 1]), sx.str("v", [1])
    a, b = cls(sx, "literal")(k, v), cls(sx, "discrete")("other!", 1)
    M = sx.C("model.XAttributeMap")
    more = [("m%d!" % i, cls(sx, "boolean")("m%d!" % i, True)) for i in range(sx.choice("more", [0, 1, 2]))]
    d = {k: a}
    for i, j in more:
        d[i] = j
    n = len(d)
    m = M(d)
    m2 = M(m)
    m["other!"] = b
    sx.check(len(d) == n and len(m2) == n and len(m) == n + 1 and m2[k] is a and d[k] is a, "maps made from another are separate")
    c = sx.C("model." + {"log": "XLog", "trace": "XTrace", "event": "XEvent"}[what])
    make = getattr(f, "create_" + what) if sx.choice("how", [0, 1]) else c
    e, g = make(m), make(m2)
    check_map(sx, e, [(k, a)] + more + [("other!", b)], "given")
    check_map(sx, g, [(k, a)] + more, "given")
    put(g, cls(sx, "literal")("third!", v))
    check_map(sx, e, [(k, a)] + more + [("other!", b)], "another element")


def filled(sx, what):
    """A map that is filled after the element was made with it."""
    f = factory(sx)
    k, v = sx.str("k", [0, 1]), sx.str("v", [1])
    c = sx.C("model." + {"log": "XLog", "trace": "XTrace", "event": "XEvent", "element": "XElement"}[what])
    make = getattr(f, "create_" + what) if what != "element" and sx.choice("how", [0, 1]) else c
    m, o = f.create_attribute_map(), f.create_attribute_map()
    a, b = cls(sx, "literal")(k, v), cls(sx, "discrete")("other!", 1)
    for i in range(sx.choice("before", [0, 1])):
        m["other!"] = b
    n = [("other!", b)] if len(m) else []
    d = sx.C("id.XID")()
    e = make(m, d) if what == "event" and sx.choice("id", [0, 1]) else make(m)
    g = make(o)
    check_map(sx, e, n, "given")
    if what == "event" and e.get_id() is not d:
        sx.check(not (e.get_id() == g.get_id()), "an identifier of its own")
    m[k] = a
    sx.check(e.get_attributes() is m, "the map that was given")
    check_map(sx, e, n + [(k, a)], "filled afterwards")
    check_map(sx, g, [], "another element")
    e.get_attributes()["third!"] = b
    sx.check(len(m) == len(n) + 2 and m["third!"] is b, "changed through the element")
    check_map(sx, g, [], "another element")
    if what == "event":
        h = make(f.create_attribute_map(), d) if what == "event" else None
        sx.check(h.get_id() is d, "the identifier that was given")


def contents(sx, what, n):
    """Traces hold events, logs hold traces: in the order they were put there."""
    f = factory(sx)
    new = f.create_event if what == "trace" else f.create_trace
    x, y = getattr(f, "create_" + what)(), getattr(f, "create_" + what)()
    put(x, attr(sx, "a", "literal", "k", small=True))
    exp = []
    e = new()
    for k in range(n):
        op = sx.choice("op%d" % k, ["append", "again", "insert", "extend", "del", "pop"])
        if op == "append":
            e = new()
            put(e, cls(sx, "discrete")("n", k))
            x.append(e)
            exp.append(e)
        elif op == "again":
            x.append(e)
            exp.append(e)
        elif op == "insert":
            i = sx.choice("i%d" % k, [0, 1, -1])
            e = new()
            put(e, cls(sx, "discrete")("n", k))
            x.insert(i, e)
            exp.insert(i, e)
        elif op == "extend":
            es = [new(), new()]
            x.extend(es)
            exp += es
        elif not exp:
            continue
        elif op == "del":
            del x[0]
            del exp[0]
        else:
            sx.check(x.pop() is exp.pop(), "what is taken away")
        sx.check(len(x) == len(exp) and all(p is q for p, q in zip(x, exp)), "contents in order")
        sx.check(len(y) == 0 and not y.has_attributes(), "another one stays empty")
        sx.check(len(x.get_attributes()) == 1, "attributes stay")
    if exp:
        sx.check(x[0] is exp[0] and x[-1] is exp[-1] and e in x or e not in exp, "found by position")


def header(sx, n):
    """Globals, classifiers, extensions and features are the log's own."""
    f = factory(sx)
    a, b = f.create_log(), sx.C("model.XLog")(None)
    G = {"gt": "get_global_trace_attributes", "ge": "get_global_event_attributes", "c": "get_classifiers"}
    exp = {k: [] for k in G}
    feat, exts = [], []
    for k in range(n):
        op = sx.choice("op%d" % k, ["gt", "ge", "c", "x", "f"])
        if op in ("gt", "ge"):
            g = attr(sx, "g%d" % k, KINDS[k % 8], "g", small=True)
            getattr(a, G[op])().append(g)
            exp[op].append(g)
        elif op == "c":
            c = sx.C("classification.XEventAttributeClassifier")(sx.str("c%d" % k, [1]), ["k"])
            a.get_classifiers().append(c)
            exp["c"].append(c)
        elif op == "x":
            x = sx.C("extension.std." + ["XConceptExtension", "XTimeExtension"][k % 2])()
            a.get_extensions().add(x)
            exts = [y for y in exts if y is not x] + [x]
        else:
            key, v = sx.str("f%d" % k, [1]), sx.str("w%d" % k, [1])
            a.set_features(key, v)
            feat = [(i, j) for i, j in feat if not (i == key)] + [(key, v)]
        for g, xs in exp.items():
            got = list(getattr(a, G[g])())
            sx.check(len(got) == len(xs) and all(p is q for p, q in zip(got, xs)), "header of the log")
            sx.check(len(getattr(b, G[g])()) == 0, "header of another log")
        sx.check(len(a.get_extensions()) == len(exts) and all(x in a.get_extensions() for x in exts) and len(b.get_extensions()) == 0, "extensions")
        fs = a.get_features()
        sx.check(len(fs) == len(feat) and len(b.get_features()) == 0, "number of features")
        for i, j in feat:
            sx.check(i in fs and fs[i] == j, "features")


def scenarios(tier):
    n = 4 if tier == "quick" else 5
    r = [("history-" + w, lambda sx, w=w: history(sx, w, n)) for w in OWN]
    r += [("given-" + w, lambda sx, w=w: given(sx, w)) for w in OWN[:3]]
    r += [("filled-" + w, lambda sx, w=w: filled(sx, w)) for w in OWN[:3] + ["element"]]
    return r + [("contents-" + w, lambda sx, w=w: contents(sx, w, n)) for w in ("trace", "log")] + [("header", lambda sx: header(sx, n - 1))]
