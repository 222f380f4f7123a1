"""C39: the cache of extension definitions."""
BOUNDS = {"quick": "caches of up to 3 files with arbitrary modification times (to the microsecond, within 60 years, more than 10 ms away from the age limit), of six kinds of "
                   "names, with definitions of a new URI, the URI of another file or of a registered extension, or damaged contents, next to folders; arbitrary clock; caching "
                   "with names of length 1 to 2 and 9 and definitions that arrive in up to 3 pieces of up to 2000 bytes, one of them arbitrary text of length 0 to 2, or fail",
          "thorough": "caches of up to 4 files; names of length 1 to 3 and texts to 4"}
OUTSIDE = "files whose age is within 10 ms of the limit (times are machine floats), links, files without permission, other file systems' rules for names, real connections"
ASSUMES = ["files behave as in the model in symx/stubs.py (checked on witnesses at every run); the network is replaced by a stand-in that answers with given pieces or fails"]
DAY = 86400 * 10 ** 6
LIMIT = 30 * DAY
NAMES = [("%s.xesext", True), ("%s.XESEXT", True), ("%s.xesext.bak", False), ("%sxesext", False), ("%s", False), (".%s.xEsExT", True)]


def definition(i, uri):
    return ("xesextension", {"name": "Ext%s" % i, "prefix": "p%s" % i, "uri": uri}, [("event", {}, [("string", {"key": "k"}, [])])])


def setup(sx):
    home = sx.home()
    folder = sx.C("utils.XRuntimeUtils")().get_extension_cache_folder()
    sx.check(folder.startswith(home) and sx.exists(folder), "the cache is a folder below the home of the user")
    return folder


def known(sx, M):
    r = []
    while M.get_by_index(len(r)) is not None:
        r.append(M.get_by_index(len(r)))
    return r


def age(sx, name):
    return sx.int(name, 10 ** 15 - 2 * 10 ** 15 // 5, 3 * 10 ** 15)


def load(sx, files, extra=()):
    """files: [(index, name, is definition, content kind)]; the times are arbitrary."""
    folder = setup(sx)
    M = sx.C("extension.XExtensionManager")()
    before = known(sx, M)
    std = before[0].get_uri().geturl()
    times, exp = [], []
    for i, name, isdef, content in files:
        p = folder + "/" + name
        uri = {"new": "http://new.org/%s.xesext" % i, "same": "http://new.org/same.xesext", "std": std}.get(content)
        if uri:
            sx.write_xml(p, definition(i, uri))
        else:
            sx.write_text(p, {"broken": "<xesextension name='x'", "empty": "", "other": "<log/>"}[content])
        t = age(sx, "t%d" % i)
        sx.set_mtime(p, t)
        times.append(t)
    for d in extra:
        sx.mkdir(folder + "/" + d)
        sx.set_mtime(folder + "/" + d, 0)
        sx.write_text(folder + "/" + d + "/in.xesext", "<log/>")
        sx.set_mtime(folder + "/" + d + "/in.xesext", 0)
    all_before = sx.files_below(folder)
    sx.clock_range(10 ** 15, 2 * 10 ** 15)
    n0 = len(sx.clock_values())
    M.load_extension_cache()
    clk = sx.clock_values()[n0:]
    stale = []
    for t, f in zip(times, files):
        if not f[2]:
            stale.append(False)
            continue
        sx.check(len(clk) >= 1, "the clock is read")
        sx.assume(sx.either(clk[0] - t > LIMIT + 10 ** 4, clk[-1] - t < LIMIT - 10 ** 4))
        stale.append(clk[0] - t > LIMIT)
    left = sx.files_below(folder)
    gone = []
    for s, f in zip(stale, files):
        if s:
            sx.check(f[1] not in left, "a stale definition is removed")
            gone.append(f[1])
        else:
            sx.check(f[1] in left, "fresh definitions and other files are never removed")
    sx.check(sorted(left) == sorted([x for x in all_before if x not in gone]), "nothing else is removed or added")
    after = known(sx, M)
    sx.check(all(x is y for x, y in zip(before, after)), "extensions registered before stay")
    exp = {}
    for s, (i, name, isdef, content) in zip(stale, files):
        if isdef and not s and content in ("new", "same"):
            u = "http://new.org/%s.xesext" % (i if content == "new" else "same")
            exp.setdefault(u, []).append("Ext%s" % i)
    sx.check(len(after) == len(before) + len(exp), "number of extensions registered")
    for u, names in exp.items():
        x = M.get_by_uri(sx.parse_uri(u))
        sx.check(x is not None and x.get_name() in names and any(x is y for y in after), "a fresh definition is registered")
        sx.check(M.get_by_prefix("p" + x.get_name()[3:]) is x and M.get_by_name(x.get_name()) is x, "and found by name and prefix")
        sx.check([a.get_key() for a in x.get_event_attributes()] == [x.get_prefix() + ":k"], "with its attributes")
    # once more: nothing changes
    for (f, s) in zip(files, stale):
        if not s:
            sx.set_mtime(folder + "/" + f[1], 4 * 10 ** 15)
    M.load_extension_cache()
    again = known(sx, M)
    sx.check(len(again) == len(after) and all(x is y for x, y in zip(again, after)), "loading twice registers nothing new")
    sx.check(sx.files_below(folder) == left, "and removes nothing more")


def mixed(sx, n, kinds, contents, extra):
    files = []
    for i in range(n):
        name, isdef = sx.choice("name%d" % i, [NAMES[k] for k in kinds])
        files.append((i, (name % "f%d" % i) if "%" in name else name, isdef, sx.choice("content%d" % i, contents)))
    load(sx, files, extra)


def cache(sx, lens, before, slash):
    """Caching stores the content under the last part of the URI."""
    folder = setup(sx)
    stem = sx.str("stem", lens, chars="abcXYZ019._-")
    suffix = sx.choice("suffix", ["", ".xesext", ".xml"])
    url = "http://own.org/dir.d/" + stem + suffix + ("/" if slash else "")
    name = stem + suffix
    if not name.endswith(".xesext"):
        name = name + ".xesext"
    for o in ("other.xesext", "note.txt"):
        sx.write_text(folder + "/" + o, "old")
    if before:
        sx.write_text(folder + "/" + name, "an older definition that is longer than the one that is stored now")
    pieces = {0: [], 1: ["<x>"], 2: ["a" * 1024, "b" * 2000], 3: ["\u00e9" * 700, "tail"]}[sx.choice("pieces", [0, 1, 2, 3])]
    pieces = pieces + [sx.str("text", [0, 1, 2], chars="abc<>&\"' ")]
    pieces = [p for p in pieces if len(p)]
    sx.serve(url, pieces)
    sx.C("extension.XExtensionManager").cache_extension(sx.parse_uri(url))
    text = ""
    for p in pieces:
        text = text + p
    sx.check(sx.exists(folder + "/" + name), "stored under the last part of the URI")
    sx.check(sx.content(folder + "/" + name) == text, "exactly the content")
    sx.check(len(sx.files_below(folder)) == 3, "nothing else is stored")
    for o in ("other.xesext", "note.txt"):
        if not (name == o):
            sx.check(sx.content(folder + "/" + o) == "old", "other files stay as they are")


def fails(sx, when, before):
    """A failing connection leaves the cache as it was."""
    folder = setup(sx)
    stem = sx.str("stem", [1], chars="abcXYZ019")
    url = "http://own.org/" + stem + ".xesext"
    sx.write_text(folder + "/other.xesext", "old")
    if before:
        sx.write_text(folder + "/" + stem + ".xesext", "older")
    E = {"refused": ConnectionRefusedError(111, "refused"), "reset": ConnectionResetError(104, "reset"), "timeout": TimeoutError(110, "timed out"),
         "other": OSError("broken")}[sx.choice("error", ["refused", "reset", "timeout", "other"])]
    sx.serve(url, E if when == 0 else ["a" * 1500] * (when - 1) + [E])
    sx.C("extension.XExtensionManager").cache_extension(sx.parse_uri(url))
    left = sx.files_below(folder)
    sx.check(len(left) == 1 + before, "no file is left behind or lost")
    sx.check(sx.content(folder + "/other.xesext") == "old", "other files stay as they are")
    if before:
        sx.check(sx.content(folder + "/" + stem + ".xesext") == "older", "the older definition stays")


def scenarios(tier):
    q = tier == "quick"
    C = ["new", "same", "std", "broken"]
    r = [("none-%d" % len(x), lambda sx, x=x: mixed(sx, 0, [], [], x)) for x in ((), ("d.xesext",), ("a", "d.xesext"))]
    r += [("one-%d" % k, lambda sx, k=k: mixed(sx, 1, [k], C + ["empty", "other"], ())) for k in range(6)]
    for k in range(6):
        r.append(("two-%d" % k, lambda sx, k=k: mixed(sx, 2, [k, (k + 1) % 6], C, ("d.xesext",))))
        r.append(("three-%d" % k, lambda sx, k=k: mixed(sx, 3, [0, 1] if k == 0 else [k], ["new", "same"] if k == 0 else ["new", "broken"], ())))
        if not q:
            r.append(("four-%d" % k, lambda sx, k=k: mixed(sx, 4, [0, k], ["new", "same"], ())))
    L = [1, 2] if q else [1, 2, 3]
    for b in (0, 1):
        for s in (0, 1):
            r.append(("cache-%d-%d" % (b, s), lambda sx, b=b, s=s: cache(sx, L, b, s)))
    r += [("fails-%d-%d" % (w, b), lambda sx, w=w, b=b: fails(sx, w, b)) for w in (0, 1, 2, 3) for b in (0, 1)]
    return r
