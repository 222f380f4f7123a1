"""C17: cost values."""
from props.common import factory, put, cls
from props.setters import element, others, check_others, assign, extract, check_set
BOUNDS = {"quick": "all doubles (NaN and infinities included) and integers to 10^18 as totals and amounts, texts of length 0 to 5 (white space included) and of 40 "
                   "characters with one arbitrary; up to three settings in a row on traces, events and attributes that carry other attributes; all "
                   "pairs of setters, also set alternately",
          "thorough": "texts of length 0 to 7"}
OUTSIDE = "longer texts"
ANY_TEXT = True
ASSUMES = []
X = "extension.std.XCostExtension"
D = {"total": (X, "cost:total", "continuous", "assign_total", "extract_total"),
     "currency": (X, "cost:currency", "literal", "assign_currency", "extract_currency"),
     "amount": (X, "cost:amount", "continuous", "assign_amount", "extract_amount"),
     "driver": (X, "cost:driver", "literal", "assign_driver", "extract_driver"),
     "type": (X, "cost:type", "literal", "assign_type", "extract_type")}
WHERE = {"total": ["trace", "event"], "currency": ["trace", "event"], "amount": ["literal", "event"], "driver": ["literal", "event"],
         "type": ["literal", "event"]}
NUM = ("total", "amount")


def val(sx, name, f, lens, whole=False):
    if f in NUM:
        return sx.int(name, -10 ** 18, 10 ** 18) if whole else sx.float(name, nan=True)
    return sx.str(name, lens, ws=True)


def keeps(f, v):
    return v is not None and (v > 0 if f in NUM else len(v.strip()) > 0)


def same(a, b):
    return a == b


def one(sx, f, where, lens, whole=False):
    d, el, el2 = D[f], element(sx, where), element(sx, where)
    oth = others(sx, el, d[1])
    sx.check(extract(sx, d, el) is None, "nothing before it is set")
    v = val(sx, "v", f, lens, whole)
    assign(sx, d, el, v)
    if not keeps(f, v):
        sx.check(extract(sx, d, el) is None, "values that are not positive, and blank texts, change nothing")
        check_others(sx, el, oth, 0)
        return
    check_set(sx, d, el, v, same)
    check_others(sx, el, oth, 1)
    sx.check(extract(sx, d, el2) is None, "other elements are not affected")
    w = val(sx, "w", f, lens, whole)
    assign(sx, d, el2, w)
    check_set(sx, d, el, v, same)
    assign(sx, d, el, w)
    cur = w if keeps(f, w) else v
    check_set(sx, d, el, cur, same)
    check_others(sx, el, oth, 1)
    assign(sx, d, el, None)
    check_set(sx, d, el, cur, same)
    check_others(sx, el, oth, 1)


def several(sx, fs):
    el = element(sx, "event")
    exp = {}
    for i, f in enumerate(fs):
        v = val(sx, "v%d" % i, f, [0, 1, 2])
        assign(sx, D[f], el, v)
        if keeps(f, v):
            exp[f] = v
    for f in D:
        if f in exp:
            check_set(sx, D[f], el, exp[f], same)
        else:
            sx.check(extract(sx, D[f], el) is None, "values never set read as nothing")
    sx.check(len(el.get_attributes()) == len(exp), "one attribute per value set")


def long(sx, f):
    el = element(sx, WHERE[f][0])
    v = " Handle the request " + sx.str("c", [1]) + " of the customer "
    assign(sx, D[f], el, v)
    check_set(sx, D[f], el, v, same)


def read(sx, f):
    el = element(sx, WHERE[f][0])
    v = sx.float("v") if f in NUM else sx.str("v", [0, 1, 2])
    put(el, cls(sx, D[f][2])(D[f][1], v))
    got = extract(sx, D[f], el)
    sx.check(sx.same_float(got, v) if f in NUM else got == v, "an existing attribute is read as it is")


def scenarios(tier):
    q = tier == "quick"
    L = [0, 1, 2, 3, 4, 5] if q else list(range(8))
    r = [("one-%s-%s" % (f, w), lambda sx, f=f, w=w: one(sx, f, w, L)) for f in D for w in WHERE[f]]
    r += [("whole-%s-%s" % (f, w), lambda sx, f=f, w=w: one(sx, f, w, L, True)) for f in NUM for w in WHERE[f]]
    r += [("read-" + f, lambda sx, f=f: read(sx, f)) for f in D]
    r += [("long-" + f, lambda sx, f=f: long(sx, f)) for f in D if f not in NUM]
    r += [("two-%s-%s" % (f, g), lambda sx, f=f, g=g: several(sx, [f, g])) for f in D for g in D]
    r += [("all", lambda sx: several(sx, list(D)))]
    r += [("three-%s-%s" % (f, g), lambda sx, f=f, g=g: several(sx, [f, g, f])) for f in D for g in D if f != g]
    return r
