"""C18: micro events."""
from props.common import factory, put, cls
BOUNDS = {"quick": "all histories of up to 4 settings and removals of level, length and parent; integers to 10^30, all 128-bit ids; another attribute with arbitrary key or none",
          "thorough": "all histories of up to 5"}
OUTSIDE = "longer histories"
ANY_TEXT = True
ASSUMES = []
OPS = ["level", "length", "parent", "-level", "-length", "-parent", "noparent"]


def check_state(sx, m, e, st, n):
    sx.check(m.extract_level(e) == st.get("level", -1), "level")
    sx.check(m.extract_length(e) == st.get("length", -1), "length")
    p = m.extract_parent_id(e)
    if "parent" in st:
        sx.check(p is not None and p == st["parent"], "parent")
        sx.check(type(e.get_attributes()["micro:parentId"]) is cls(sx, "id"), "the parent is an id")
    else:
        sx.check(p is None, "no parent")
    keys = {"level": "micro:level", "length": "micro:length", "parent": "micro:parentId"}
    for k, key in keys.items():
        sx.check((key in e.get_attributes()) == (k in st), "the attribute is there exactly while it is set: " + k)
        if k in st:
            a = e.get_attributes()[key]
            sx.check(a.get_key() == key and a.get_extension() is sx.C("extension.std.XMicroExtension")(), "key and extension of the attribute")
    sx.check(len(e.get_attributes()) == len(st) + n, "no other attributes")


def apply(sx, m, e, st, op, i):
    if op == "level":
        v = sx.int("v%d" % i, -10 ** 30, 10 ** 30)
        m.assign_level(e, v)
        if v > 0:
            st["level"] = v
    elif op == "length":
        v = sx.int("v%d" % i, -10 ** 30, 10 ** 30)
        m.assign_length(e, v)
        if v >= 0:
            st["length"] = v
    elif op == "parent":
        st["parent"] = sx.C("id.XID")(sx.uuid("v%d" % i))
        m.assign_parent_id(e, st["parent"])
    elif op == "noparent":
        m.assign_parent_id(e, None)
        st.pop("parent", None)
    else:
        {"-level": m.remove_level, "-length": m.remove_length, "-parent": m.remove_parent_id}[op](e)
        st.pop(op[1:], None)


def history(sx, first, n):
    m = sx.C("extension.std.XMicroExtension")()
    e, other = factory(sx).create_event(), factory(sx).create_event()
    b = sx.choice("carries", [1, 0])
    k, v = sx.str("k", [0, 1]), sx.str("kv", [1])
    if b:
        put(e, cls(sx, "literal")(k, v))
    st = {}
    check_state(sx, m, e, st, b)
    for i in range(n):
        apply(sx, m, e, st, first if i == 0 else sx.choice("op%d" % i, OPS), i)
        check_state(sx, m, e, st, b)
    if b:
        sx.check(k in e.get_attributes() and e.get_attributes()[k].get_value() == v, "other attributes stay")
    check_state(sx, m, other, {}, 0)


def twoevents(sx, op):
    """Two events in turn."""
    m = sx.C("extension.std.XMicroExtension")()
    a, b = factory(sx).create_event(), factory(sx).create_event()
    sa, sb = {}, {}
    for i, (e, s) in enumerate(((a, sa), (b, sb), (a, sa))):
        apply(sx, m, e, s, op, i)
    check_state(sx, m, a, sa, 0)
    check_state(sx, m, b, sb, 0)


def scenarios(tier):
    n = 4 if tier == "quick" else 5
    r = [("history-" + o, lambda sx, o=o: history(sx, o, n)) for o in OPS]
    r += [("two-" + o, lambda sx, o=o: twoevents(sx, o)) for o in OPS[:3]]
    return r
