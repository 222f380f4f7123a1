"""C25: token lists."""
BOUNDS = {"quick": "lists of up to 3 tokens with a total length of up to 4, of any characters including white space, quotes and backslashes; tokens of 30 characters "
                   "with two arbitrary; texts of length 0 to 4",
          "thorough": "lists of up to 4 tokens with a total length of up to 5; texts of length 0 to 6"}
OUTSIDE = "longer tokens and texts"
ANY_TEXT = True
ASSUMES = []


def check_list(sx, got, exp, what):
    got = list(got)
    sx.check(len(got) == len(exp), what + ": number of tokens")
    for a, b in zip(got, exp):
        sx.check(a == b, what + ": token")


def trip(sx, lens):
    T = sx.C("utils.XTokenHelper")
    toks = [sx.str("t%d" % i, [n], ws=True) for i, n in enumerate(lens)]
    s = T.format_token(list(toks))
    check_list(sx, T.extract_tokens(s), toks, "round trip")
    sx.observe("text", s)


def long(sx, pos):
    T = sx.C("utils.XTokenHelper")
    a, b = sx.str("a", [1], ws=True), sx.str("b", [1], ws=True)
    t = "a token of the log, quite long" if pos % 2 else "another_token_without_any_blank"
    toks = ["first", t[:pos] + a + t[pos:pos + 3] + b + t[pos + 3:], "last one"]
    check_list(sx, T.extract_tokens(T.format_token(list(toks))), toks, "round trip")


def special(sx, lens):
    """Longer tokens over the characters that matter."""
    T = sx.C("utils.XTokenHelper")
    toks = [sx.str("t%d" % i, [n], chars="'\\ \ta") for i, n in enumerate(lens)]
    check_list(sx, T.extract_tokens(T.format_token(list(toks))), toks, "round trip")


def plain(sx, n):
    """Texts without quotes and backslashes: split at white space."""
    T = sx.C("utils.XTokenHelper")
    s = sx.str("s", [n], ws=True)
    exp, cur = [], ""
    for c in s:
        sx.assume(sx.both(c != "'", c != "\\"))
        if c.isspace():
            if len(cur):
                exp.append(cur)
            cur = ""
        else:
            cur = cur + c
    if len(cur):
        exp.append(cur)
    check_list(sx, T.extract_tokens(s), exp, "separated by white space")


def quoted(sx, n):
    """A quoted part between plain ones: white space in it does not separate."""
    T = sx.C("utils.XTokenHelper")
    x, y, z = [sx.str(v, [k], ws=True) for v, k in (("x", 1), ("y", n), ("z", 1))]
    for t in (x, y, z):
        for c in t:
            sx.assume(sx.both(c != "'", c != "\\"))
    sx.assume(sx.no(x.isspace()))
    sx.assume(sx.no(z.isspace()))
    check_list(sx, T.extract_tokens(x + " '" + y + "' " + z), [x, y, z], "quoted token")
    check_list(sx, T.extract_tokens("'" + y + "'\t" + z), [y, z], "quoted token at the start")


def anytext(sx, n):
    """Whatever the text, it is read without failing, and reading the formatted tokens again gives the same."""
    T = sx.C("utils.XTokenHelper")
    s = sx.str("s", [n], ws=True)
    toks = list(T.extract_tokens(s))
    check_list(sx, T.extract_tokens(T.format_token(list(toks))), toks, "tokens of a text")


def repeated(sx, n):
    """Lists that resemble each other, one after the other; what is done to a list has no effect on later ones."""
    T = sx.C("utils.XTokenHelper")
    a = sx.str("a", [n], ws=True)
    b = sx.choice("b", ["A b", "a B", "a  b", "a b ", "a", "b"])
    for i, toks in enumerate(([a, "a b"], ["a", "b", a], [a, b], ["a b", a], [a + " b"], [a, "a b"])):
        given = list(toks)
        s = T.format_token(given)
        check_list(sx, given, toks, "the list given")
        got = T.extract_tokens(s)
        check_list(sx, got, toks, "round trip of list %d" % i)
        got.append("more")
        del got[0]
        again = T.extract_tokens(s)
        sx.check(again is not got, "a list of its own")
        check_list(sx, again, toks, "read again")
        given.append("more")
        check_list(sx, T.extract_tokens(T.format_token(given)), toks + ["more"], "after the list was changed")


def scenarios(tier):
    import itertools
    q = tier == "quick"
    r = [("trip-none", lambda sx: trip(sx, ()))]
    for k in range(1, 4 if q else 5):
        for lens in itertools.product(range(5 if q else 6), repeat=k):
            if sum(lens) <= {1: 4, 2: 4, 3: 3}.get(k, 3) + (0 if q else 1):
                r.append(("trip-" + "-".join(map(str, lens)), lambda sx, lens=lens: trip(sx, lens)))
    r += [("long-%d" % p, lambda sx, p=p: long(sx, p)) for p in (0, 1, 4, 5, 20)]
    r += [("special-" + "-".join(map(str, l)), lambda sx, l=l: special(sx, l)) for l in ((4,), (2, 2), (1, 3), (5,) if not q else (3, 1))]
    r += [("repeated-%d" % n, lambda sx, n=n: repeated(sx, n)) for n in (0, 1)]
    r += [("plain-%d" % n, lambda sx, n=n: plain(sx, n)) for n in range(5 if q else 7)]
    r += [("quoted-%d" % n, lambda sx, n=n: quoted(sx, n)) for n in range(4)]
    r += [("any-%d" % n, lambda sx, n=n: anytext(sx, n)) for n in range(4 if q else 6)]
    return r
