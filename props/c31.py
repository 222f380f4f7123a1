"""C31: cached summaries."""
from props.common import factory, put, cls
BOUNDS = {"quick": "all sequences of up to 3 operations (store, ask for the stored one, ask for the summary) with classifiers of arbitrary names of length 0 to 1 and up to 2 "
                   "arbitrary keys; clones of logs",
          "thorough": "all sequences of up to 4 operations"}
OUTSIDE = "logs that change between summaries (the stored summary is of the log as it was)"
ASSUMES = []


def clf(sx, name, nk):
    return sx.C("classification.XEventAttributeClassifier")(sx.str(name, [0, 1]), [sx.str("%s.%d" % (name, i), [0, 1]) for i in range(nk)])


def same(sx, a, b):
    if len(a.get_defining_attribute_keys()) != len(b.get_defining_attribute_keys()):
        return False
    return sx.both(a.name() == b.name(), *[x == y for x, y in zip(a.get_defining_attribute_keys(), b.get_defining_attribute_keys())])


def steps(sx, ops, nks):
    F, I = sx.C("info.XLogInfoFactory"), sx.C("info.XLogInfo")
    f = factory(sx)
    log, t, e = f.create_log(), f.create_trace(), f.create_event()
    put(e, cls(sx, "literal")("concept:name", "a"))
    t.append(e)
    log.append(t)
    cur = None
    for i, op in enumerate(ops):
        c = clf(sx, "c%d" % i, nks[i])
        if op == "store":
            info = I.create(log, c)
            log.set_info(c, info)
            cur = (c, info)
        elif op == "get":
            got = log.get_info(c)
            if cur is not None and same(sx, cur[0], c):
                sx.check(got is cur[1], "the stored summary")
            else:
                sx.check(got is None, "no summary for another classifier")
        else:
            got = F.create_log_info(log, c) if op == "ask" else F.create_log_info(log)
            if op == "default":
                c = I.STANDARD_CLASSIFIER
            if cur is not None and same(sx, cur[0], c):
                sx.check(got is cur[1], "the stored summary is returned")
            else:
                sx.check(got is not None and (cur is None or got is not cur[1]), "a new summary")
                sx.check(got.get_log() is log, "of the log")
                k = got.get_event_classes()
                sx.check(same(sx, k.get_classifier(), c), "with the requested classifier")
                sx.check(got.get_number_of_event() == 1, "of its events")
                sx.check(log.get_info(c) is got, "and stored")
                cur = (c, got)
            sx.check(F.create_log_info(log, c) is got, "asking again returns it")
    q = clf(sx, "q", nks[0])
    g = log.get_info(q)
    if cur is not None and same(sx, cur[0], q):
        sx.check(g is cur[1], "the stored summary for an equal classifier")
    else:
        sx.check(g is None, "nothing for any other classifier")
    other = f.create_log()
    sx.check(other.get_info(q) is None, "other logs have their own")


def cloned(sx):
    F = sx.C("info.XLogInfoFactory")
    log = factory(sx).create_log()
    c = clf(sx, "c", 1)
    i = F.create_log_info(log, c)
    o = log.clone()
    j = F.create_log_info(o, c)
    sx.check(j.get_log() is o and log.get_info(c) is i, "a clone has its own summary")


def scenarios(tier):
    import itertools
    q = tier == "quick"
    r = [("cloned", cloned)]
    O = ["store", "get", "ask", "default"]
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for ops in itertools.product(O, repeat=n):
            if n < 3 or "get" not in ops[:-1] or not q:
                r.append(("-".join(ops), lambda sx, ops=ops, n=n: steps(sx, ops, [1] * n)))
    for ops in (("store", "get"), ("ask", "ask")):
        for nk in ((0, 1), (1, 2), (2, 2), (2, 1)):
            r.append(("%s-%d-%d" % ("-".join(ops), *nk), lambda sx, ops=ops, nk=nk: steps(sx, ops, list(nk))))
    return r
