"""C54: platforms and folders."""
BOUNDS = {"quick": "all platform names of length 0 to 8, and the names of the common platforms with up to 2 arbitrary characters after them; home folders from either "
                   "variable; every order of the questions; folders that are there or not",
          "thorough": "platform names of length 0 to 10"}
OUTSIDE = "real file systems of other platforms (paths with backslashes are created as such); home folders that cannot be written"
ASSUMES = ["sys.platform is the only source of the platform; files behave as in the model in symx/stubs.py (checked on witnesses at every run)"]
KNOWN = ["win32", "darwin", "linux", "linux2", "freebsd", "freebsd7", "cygwin", "aix", "sunos5", "openbsd6", "win64", "mac", "Linux", "Win32"]
ASK = ["is_running_windows", "is_running_mac_os_x", "is_running_linux", "is_running_unix"]


def starts(sx, p, s):
    return p[:len(s)] == s


def questions(sx, name):
    p = name(sx)
    sx.platform(p)
    u = sx.C("utils.XRuntimeUtils")()
    exp = {"is_running_windows": starts(sx, p, "win32"), "is_running_mac_os_x": starts(sx, p, "darwin"), "is_running_linux": starts(sx, p, "linux")}
    exp["is_running_unix"] = exp["is_running_linux"] or exp["is_running_mac_os_x"] or starts(sx, p, "freebsd")
    r = sx.choice("order", [0, 1, 2, 3])
    for k in range(2):
        for q in (ASK[r:] + ASK[:r])[::-1 if k else 1]:
            sx.check(getattr(u, q)() == exp[q], q)
        sx.check(u.determine_os() == p, "name of the platform")
    sx.check(not (u.is_running_windows() and u.is_running_unix()), "not both")


def folders(sx, name, profile):
    p = name(sx)
    home = sx.home(profile)
    sx.platform(p)
    X = sx.C("utils.XRuntimeUtils")
    u = X()
    if starts(sx, p, "win32"):
        exp = home + "\\OpenXES"
        end = "\\"
    else:
        exp = home + ("/Library/Application Support/OpenXES" if starts(sx, p, "darwin") else "/.OpenXES")
        end = "/"
    there = sx.choice("there", ["no", "base", "all"]) if end == "/" and not starts(sx, p, "darwin") else "no"
    if there != "no":
        sx.mkdir(exp)
        sx.write_text(exp + "/keep", "x")
    if there == "all":
        sx.mkdir(exp + "/ExtensionCache")
        sx.write_text(exp + "/ExtensionCache/keep", "y")
    first = sx.choice("first", ["support", "cache"])
    for k in range(2):
        if first == "support" or k:
            f = u.get_support_folder()
            sx.check(f == exp + end, "support folder of the platform")
            sx.check(sx.exists(exp), "it exists")
        c = (u if k else X()).get_extension_cache_folder()
        sx.check(c == exp + end + "ExtensionCache", "folder of the cache in the support folder")
        sx.check(sx.exists(c), "it exists")
    if there != "no":
        sx.check(sx.content(exp + "/keep") == "x", "contents stay")
    if there == "all":
        sx.check(sx.content(exp + "/ExtensionCache/keep") == "y", "contents stay")
    sx.check(X.xes_version == "1.0" and X.openxes_version == "1.0RC7", "versions")


def scenarios(tier):
    q = tier == "quick"
    r = [("any-%d" % n, lambda sx, n=n: questions(sx, lambda sx: sx.str("p", [n]))) for n in range(9 if q else 11)]
    for k in KNOWN:
        r.append(("known-" + k, lambda sx, k=k: questions(sx, lambda sx: k + sx.str("p", [0, 1, 2]))))
        for pr in (True, False):
            r.append(("folders-%s-%d" % (k, pr), lambda sx, k=k, pr=pr: folders(sx, lambda sx: k + sx.str("p", [0, 1]), pr)))
    return r
