"""C20: model references."""
from props.common import factory, put, cls
from props.setters import element
BOUNDS = {"quick": "lists of up to 4 references of length 1 to 3 of any characters but white space, one of 50 characters with one arbitrary, URIs with an arbitrary letter "
                   "in path or fragment; existing attributes of length 0 to 6 with any white space; logs, traces, events and attributes",
          "thorough": "lists of up to 5 references, existing attributes of length 0 to 8"}
OUTSIDE = "longer lists and references; references with white space; URIs that urlparse and geturl do not reproduce"
ANY_TEXT = True
ASSUMES = ["urllib.parse is executed as modelled in symx/stubs.py"]
KEY = "semantic:modelReference"


def ref(sx, name, lens):
    v = sx.str(name, lens)
    sx.assume(len(v.split()) == 1 and len(v.strip()) == len(v))
    sx.assume(sx.both(*[sx.no(c.isspace()) for c in v]))
    return v


def check_list(sx, got, exp, what):
    got = list(got)
    sx.check(len(got) == len(exp), what + ": number")
    for a, b in zip(got, exp):
        sx.check(a == b, what + ": text and order")


def texts(sx, n, where, lens):
    s, el = sx.C("extension.std.XSemanticExtension")(), element(sx, where)
    b = sx.choice("carries", [1, 0])
    if b:
        put(el, cls(sx, "literal")("k", "x y"))
    check_list(sx, s.extract_model_references(el), [], "no references")
    refs = [ref(sx, "r%d" % i, lens) for i in range(n)]
    s.assign_model_references(el, list(refs))
    check_list(sx, s.extract_model_references(el), refs, "references")
    sx.check(len(el.get_attributes()) == b + (1 if n else 0), "an empty list changes nothing")
    if n:
        a = el.get_attributes()[KEY]
        sx.check(type(a) is cls(sx, "literal") and a.get_key() == KEY and a.get_extension() is s, "standard attribute")
        s.assign_model_references(el, [])
        check_list(sx, s.extract_model_references(el), refs, "references after setting none")
        o = element(sx, where)
        check_list(sx, s.extract_model_references(o), [], "other elements are not affected")
        s.assign_model_references(o, ["other"])
        check_list(sx, s.extract_model_references(el), refs, "references after setting those of another")
        s.assign_model_references(el, ["x", "y"])
        check_list(sx, s.extract_model_references(el), ["x", "y"], "references set again")
    sx.check(not b or el.get_attributes()["k"].get_value() == "x y", "other attributes stay")


def uris(sx, n, where):
    s, el = sx.C("extension.std.XSemanticExtension")(), element(sx, where)
    us = [sx.uri("u%d" % i) if i != 1 else sx.parse_uri("urn:onto:x;p?q=1#" + sx.str("f", [1, 2], chars="abcXYZ0/?.-_")) for i in range(n)]
    s.assign_model_reference_uris(el, list(us))
    got = list(s.extract_model_reference_uris(el))
    sx.check(len(got) == n, "number of URIs")
    for a, b in zip(got, us):
        sx.check(a == b, "URIs")
        sx.check(a.geturl() == b.geturl(), "texts of the URIs")
    check_list(sx, s.extract_model_references(el), [u.geturl() for u in us], "texts of URIs")
    if not n:
        sx.check(len(el.get_attributes()) == 0, "an empty list changes nothing")


def mixed(sx):
    """References given as texts, read as URIs."""
    s, el = sx.C("extension.std.XSemanticExtension")(), element(sx, "event")
    us = [sx.uri("u%d" % i) for i in range(2)]
    s.assign_model_references(el, [u.geturl() for u in us])
    got = list(s.extract_model_reference_uris(el))
    sx.check(len(got) == 2 and got[0] == us[0] and got[1] == us[1], "texts read as URIs")


def long(sx):
    s, el = sx.C("extension.std.XSemanticExtension")(), element(sx, "event")
    refs = ["http://www.example.org/an/ontology/of/things#" + ref(sx, "c", [1]) + "Concept", "b", "http://www.example.org/2#x"]
    s.assign_model_references(el, list(refs))
    check_list(sx, s.extract_model_references(el), refs, "long references")


def existing(sx, n):
    """Splitting at white space of whatever kind."""
    s, el = sx.C("extension.std.XSemanticExtension")(), element(sx, "trace")
    v = sx.str("v", [n], ws=True)
    put(el, cls(sx, "literal")(KEY, v))
    exp, cur = [], ""
    for c in v:
        if c.isspace():
            if len(cur):
                exp.append(cur)
            cur = ""
        else:
            cur = cur + c
    if len(cur):
        exp.append(cur)
    check_list(sx, s.extract_model_references(el), exp, "references separated by white space")


def scenarios(tier):
    q = tier == "quick"
    r = [("texts-%d-%s" % (n, w), lambda sx, n=n, w=w: texts(sx, n, w, [1, 2, 3] if n < 3 else [1, 2]))
         for n in range(5 if q else 6) for w in ("event", "trace", "log", "literal")]
    r += [("uris-%d-%s" % (n, w), lambda sx, n=n, w=w: uris(sx, n, w)) for n in range(4 if q else 5) for w in ("event", "log", "literal")]
    r += [("mixed", mixed), ("long", long)]
    r += [("existing-%d" % n, lambda sx, n=n: existing(sx, n)) for n in range(7 if q else 9)]
    return r
