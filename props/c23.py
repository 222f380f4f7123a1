"""C23: registries."""
BOUNDS = {"quick": "all sequences of up to 4 operations (register, choose as default) on arbitrary instances (symbolic integers and texts, and objects "
                   "with equality), on new registries and on the parser, serializer and factory registry",
          "thorough": "all sequences of up to 6 operations"}
OUTSIDE = "longer sequences"
ASSUMES = []


def inst(sx, name, kind):
    if kind == "int":
        return sx.int(name, 0, 3)
    if kind == "str":
        return sx.str(name, [0, 1])
    return sx.C("id.XID")(sx.uuid(name))


def verify(sx, r, xs, default, extra=()):
    got = list(r.get_available())
    want = list(extra)
    for x in xs:
        if not sx.either(*[x == y for y in want]):
            want.append(x)
    sx.check(len(got) == len(want), "every instance once")
    for x in want:
        sx.check(sx.either(*[x == g for g in got]), "every instance is available")
        sx.check(x in r, "contains")
    if default is None:
        sx.check(r.current_default() is None, "no default in an empty registry")
    else:
        sx.check(r.current_default() is not None and r.current_default() == default, "the current default")


def steps(sx, kind, n, first):
    r = sx.C("utils.XRegistry")()
    xs, default = [], None
    verify(sx, r, xs, default)
    for i in range(n):
        op = first if i == 0 else sx.choice("op%d" % i, ["register", "choose"])
        x = inst(sx, "x%d" % i, kind)
        if op == "register":
            r.register(x)
            if default is None:
                default = x
        else:
            r.set_current_default(x)
            default = x
        xs.append(x)
        verify(sx, r, xs, default)
    q = inst(sx, "q", kind)
    sx.check((q in r) == sx.either(*[q == x for x in xs]), "contains exactly the registered instances")


SUF = {"data_in.XParserRegistry": {"XesXmlParser", "XesXmlGZIPParser", "XMxmlParser", "XMxmlGZIPParser"},
       "data_out.XSerializerRegistry": {"XesXmlSerializer", "XesXmlGZIPSerializer", "XMxmlSerializer", "XMxmlGZIPSerializer"}}


def builtin(sx, name, n):
    R = sx.C(name)
    r = R()
    sx.check(R() is r, "one registry")
    have = list(r.get_available())
    if name in SUF:
        sx.check(len(have) == 4, "four variants")
        sx.check({type(h).__name__ for h in have} == SUF[name], "plain and compressed of both formats")
    else:
        sx.check(len(have) == 1 and isinstance(have[0], sx.C("factory.XFactory")), "a default factory")
    d = r.current_default()
    sx.check(d is not None and len([h for h in have if h is d]) == 1, "the default is one of them")
    xs, default = [], d
    for i in range(n):
        op = sx.choice("op%d" % i, ["register", "choose", "again"])
        if op == "again":
            x = have[sx.choice("which%d" % i, list(range(len(have))))]
            r.register(x)
        else:
            x = sx.C("factory.XFactory")() if name not in SUF else inst(sx, "x%d" % i, "int")
            if op == "register":
                r.register(x)
            else:
                r.set_current_default(x)
                default = x
        xs.append(x)
        verify(sx, r, xs, default, have)


def scenarios(tier):
    q = tier == "quick"
    r = [("steps-%s-%s" % (k, o), lambda sx, k=k, o=o: steps(sx, k, 4 if q else 6, o)) for k in ("int", "str", "id") for o in ("register", "choose")]
    r += [("builtin-" + n.split(".")[1], lambda sx, n=n: builtin(sx, n, 2 if q else 3))
          for n in ("data_in.XParserRegistry", "data_out.XSerializerRegistry", "factory.XFactoryRegistry")]
    return r
