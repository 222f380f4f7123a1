"""C06: order of attributes."""
from props.common import KINDS, COLLECTIONS, attr
BOUNDS = {"quick": "three attributes of one kind; keys of 0..2 characters, literals of 0..2 characters, all integers, "
                   "all doubles but NaN, all instants with offsets up to 14 h, all identifiers",
          "thorough": "as quick, with keys and literals of 0..5 characters"}
OUTSIDE = "NaN; naive timestamps; comparing attributes of different kinds with the same key"
ANY_TEXT = True
ASSUMES = ["characters from the engine's alphabet (see DESIGN.md)"]


def sgn(x):
    return 0 if x == 0 else (1 if x > 0 else -1)


def pair(sx, kind, n):
    a = attr(sx, "va", kind, sx.str("ka", n))
    b = attr(sx, "vb", kind, sx.str("kb", n))
    ab, ba = a.compare_to(b), b.compare_to(a)
    sx.check(sgn(ab) == -sgn(ba), "antisymmetric")
    sx.check((a < b) == (ab < 0), "<")
    sx.check((a <= b) == (ab <= 0), "<=")
    sx.check((a > b) == (ab > 0), ">")
    sx.check((a >= b) == (ab >= 0), ">=")
    sx.check((a != b) == sx.no(a == b), "!= is the negation of ==")
    sx.check(a.compare_to(a) == 0, "reflexive")
    ka, kb = a.get_key(), b.get_key()
    if ka != kb:
        sx.check((ab < 0) == (ka < kb), "keys decide first")
        sx.check(ab != 0, "attributes of different keys are different")
    elif kind in COLLECTIONS:
        sx.check(ab == 0, "collections compare by key")
    else:
        sx.check((a == b) == (ab == 0), "equality agrees with the order")
        va, vb = a.get_value(), b.get_value()
        if kind == "boolean":
            sx.check((ab < 0) == sx.both(sx.no(va), vb), "false before true")
        else:
            sx.check((ab < 0) == (va < vb), "then the values decide")
            sx.check((ab == 0) == (va == vb), "then the values decide (equality)")
        if a == b:
            sx.check(sx.hash_eq(a, b), "equal attributes have equal hashes")
    sx.observe("sign", sgn(ab))


def triple(sx, kind, n):
    a, b, c = [attr(sx, "v" + x, kind, sx.str("k" + x, n)) for x in "abc"]
    sx.assume(a.compare_to(b) <= 0)
    sx.assume(b.compare_to(c) <= 0)
    sx.check(a.compare_to(c) <= 0, "transitive")
    if a.compare_to(b) < 0 or b.compare_to(c) < 0:
        sx.check(a.compare_to(c) < 0, "strictly transitive")


def changed(sx, kind, n):
    """Order, equality and hash are those of the value that the attribute has now."""
    k = sx.str("k", n)
    a, b, c = attr(sx, "va", kind, k), attr(sx, "vb", kind, k), attr(sx, "vc", kind, k)
    va, vb, vc = a.get_value(), b.get_value(), c.get_value()
    sx.check((a == b) == (va == vb), "equality at first")
    sx.check(sx.hash_eq(a, a), "hash at first")
    if a == b:
        sx.check(sx.hash_eq(a, b), "equal hashes at first")
    str(a)
    a.set_value(vc)
    sx.check((a == b) == (vc == vb) and a == c and c == a, "equality after a change")
    sx.check(sgn(a.compare_to(b)) == sgn(c.compare_to(b)) and a.compare_to(c) == 0, "order after a change")
    sx.check((a < b) == (c < b) and (a >= b) == (c >= b), "order after a change")
    sx.check(sx.hash_eq(a, c), "equal attributes have equal hashes after a change")
    a.set_value(va)
    sx.check((a == b) == (va == vb) and (a == c) == (va == vc), "equality after a second change")
    if a == b:
        sx.check(sx.hash_eq(a, b), "equal hashes after a second change")


def scenarios(tier):
    n = [0, 1, 2] if tier == "quick" else [0, 1, 3, 5]
    r = []
    for k in KINDS:
        r.append(("pair-" + k, lambda sx, k=k: pair(sx, k, n)))
        if k not in COLLECTIONS:
            r.append(("changed-" + k, lambda sx, k=k: changed(sx, k, [0, 1])))
        r.append(("triple-" + k, lambda sx, k=k: triple(sx, k, n)))
    return r
