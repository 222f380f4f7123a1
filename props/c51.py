"""C51: attributes hold what they are given."""
from props.common import KINDS, VALUE_KINDS, COLLECTIONS, attr, cls, value, same_value, factory, put
BOUNDS = {"quick": "every kind with arbitrary keys (length 0 to 3) and extensions; all sequences of up to 3 arbitrary values (texts of length 0 to 3, all integers within "
                   "10^18, doubles with NaN, infinities and zeros of both signs, instants with any offset, identifiers), with nested attributes and another attribute beside it",
          "thorough": "sequences of up to 5 values"}
OUTSIDE = "the text of doubles beyond being that of their value; values of other types than the kind's"
ANY_TEXT = True
ASSUMES = []
EXTS = [None, "XConceptExtension", "XTimeExtension"]


def text(sx, kind, a, v):
    t = str(a)
    if kind == "literal":
        sx.check(t == v, "text of a text")
    elif kind == "boolean":
        sx.check(t == ("true" if v else "false"), "text of a truth value")
    elif kind == "discrete":
        sx.check(t == str(v) and int(t) == v, "text of an integer")
    elif kind == "continuous":
        sx.check(sx.same_float(float(t), v), "text of a double")
    elif kind == "id":
        sx.check(t.lower() == str(v.get_uuid()), "text of an identifier")


def holds(sx, kind, n, how):
    f = factory(sx)
    key = sx.str("key", [0, 1, 3])
    x = sx.choice("ext", EXTS)
    ext = sx.C("extension.std." + x)() if x else None
    vs = [value(sx, "v%d" % i, kind, n=[0, 1, 3] if i == 0 else [1], nan=True) for i in range(n)]
    make = getattr(f, "create_attribute_" + kind) if how == "factory" else cls(sx, kind)
    a = make(key, vs[0], ext)
    other = cls(sx, kind)(key, vs[0], None)
    nested = attr(sx, "nested", "literal", "n", small=True)
    put(a, nested)
    for i, v in enumerate(vs):
        if i:
            a.set_value(v)
        sx.check(same_value(sx, kind, a.get_value(), v), "the value last given")
        if kind == "timestamp":
            sx.check(a.get_value().utcoffset() == v.utcoffset(), "with its offset")
        text(sx, kind, a, v)
        sx.check(a.get_key() == key, "key")
        sx.check(a.get_extension() is ext, "extension")
        m = a.get_attributes()
        sx.check(len(m) == 1 and m["n"] is nested and a.has_attributes(), "nested attributes stay")
        sx.check(same_value(sx, kind, other.get_value(), vs[0]) and not other.has_attributes(), "another attribute stays")


def collection(sx, kind):
    f = factory(sx)
    key = sx.str("key", [0, 1, 3])
    x = sx.choice("ext", EXTS)
    ext = sx.C("extension.std." + x)() if x else None
    a = getattr(f, "create_attribute_" + kind)(key, ext) if sx.choice("how", [0, 1]) else cls(sx, kind)(key, ext)
    b = cls(sx, kind)(key, ext)
    n = attr(sx, "n", "literal", "n", small=True)
    a.add_to_collection(n)
    put(a, n)
    sx.check(a.get_key() == key and a.get_extension() is ext, "key and extension")
    sx.check(len(list(a.get_collection())) == 1 and len(list(b.get_collection())) == 0 and not b.has_attributes(), "contents of its own")


def scenarios(tier):
    n = 3 if tier == "quick" else 5
    return [("%s-%s-%d" % (k, h, i), lambda sx, a=(k, i, h): holds(sx, *a)) for k in VALUE_KINDS for h in ("factory", "class") for i in range(1, n + 1)] + \
           [(k, lambda sx, k=k: collection(sx, k)) for k in COLLECTIONS]
