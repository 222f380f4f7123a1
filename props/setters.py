"""Shared by C16 and C17: assign and extract through an extension."""
from props.common import factory, put, cls


def element(sx, kind):
    f = factory(sx)
    return {"log": f.create_log, "trace": f.create_trace, "event": f.create_event,
            "attribute": lambda: cls(sx, "discrete")("a", 1), "literal": lambda: cls(sx, "literal")("a", "x")}[kind]()


def others(sx, el, key):
    """Puts attributes before the one under test (or none); one key is arbitrary."""
    if sx.choice("others", [1, 0]) == 0:
        return []
    k = sx.str("otherkey", [0, 1])
    v = sx.str("other", [1])
    put(el, cls(sx, "literal")(k, v), cls(sx, "discrete")(key + "x", 7))
    return [(k, v), (key + "x", 7)]


def check_others(sx, el, oth, n):
    m = el.get_attributes()
    sx.check(len(m) == len(oth) + n, "no attributes are added or removed")
    for k, v in oth:
        sx.check(k in m and m[k].get_value() == v and m[k].get_key() == k, "other attributes stay as they were")


def assign(sx, d, el, v, typed=None):
    """d: (extension class, key, attribute class, assign, extract)"""
    getattr(sx.C(d[0])(), d[3])(el, v)


def extract(sx, d, el):
    return getattr(sx.C(d[0])(), d[4])(el)


def check_set(sx, d, el, exp, same):
    got = extract(sx, d, el)
    sx.check(got is not None, "the value is readable")
    sx.check(same(got, exp), "exactly the value that was set is read")
    a = el.get_attributes().get(d[1])
    sx.check(a is not None and a.get_key() == d[1], "under the standard key")
    sx.check(type(a) is cls(sx, d[2]), "as an attribute of the standard kind")
    sx.check(same(a.get_value(), exp), "value of the attribute")
    sx.check(a.get_extension() is sx.C(d[0])(), "with the extension")
