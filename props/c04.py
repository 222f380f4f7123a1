"""C04: dates are read correctly, bad dates are refused."""
BOUNDS = {"quick": "all digits in all fields, fractions of 0 to 12 digits, all offsets of two plus two digits; every replacement of one "
                   "character, every single deletion and insertion in the date and time fields; arbitrary texts of length 0 to 7, two arbitrary characters at every pair of positions and of length 20 "
                   "with up to 3 arbitrary characters anywhere; offsets with hours of 1 to 14 digits",
          "thorough": "as quick with arbitrary texts of length 0 to 8, fractions of up to 16 digits"}
OUTSIDE = ("digits outside ASCII; malformed offsets, other than that they never raise; fields with fewer digits than two (four for the "
           "year) or a blank for the leading zero of the day, which may be read")
ASSUMES = ["strptime behaves as modelled by its regular expression in symx/dt.py and symx/rex.py (checked on witnesses at every run)"]
DIG = "0123456789"


def parse(sx, t):
    f = sx.mod("opyenxes.utils.XsDateTimeConversion").parse_date_time
    e = sx.raises(f, t)
    sx.check(e is None, "no exception")
    return f(t)


def D(sx, name, n):
    return sx.str(name, [n], chars=DIG)


def num(sx, s):
    return int(s)


def fields(sx):
    return [D(sx, n, k) for n, k in (("y", 4), ("mo", 2), ("d", 2), ("h", 2), ("mi", 2), ("s", 2))]


def text(f):
    return f[0] + "-" + f[1] + "-" + f[2] + "T" + f[3] + ":" + f[4] + ":" + f[5]


def days(sx, y, m):
    if m == 2:
        return 29 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 28
    return 30 if sx.either(m == 4, m == 6, m == 9, m == 11) else 31


def valid(sx, v):
    y, mo, d, h, mi, s = v
    if sx.either(y < 1, mo < 1, mo > 12, d < 1, d > 31, h > 23, mi > 59, s > 59):
        return False
    if d <= 28:
        return True
    return bool(d <= days(sx, y, mo))


def well_formed(sx, fraction, zone, narrow=False):
    f = fields(sx)
    t = text(f)
    us = 0
    if fraction:
        fr = D(sx, "fr", fraction)
        t = t + "." + fr
        k = fr[:6]
        us = num(sx, k) * 10 ** (6 - len(k))
    off = 0
    zok = True
    if zone == "Z":
        t = t + "Z"
    elif zone:
        zh, zm = D(sx, "zh", 2), D(sx, "zm", 2)
        t = t + zone + zh + ":" + zm
        sx.assume(num(sx, zm) <= 59)
        off = num(sx, zh) * 60 + num(sx, zm)
        zok = off < 1440
        if zone == "-":
            off = -off
    v = [num(sx, x) for x in f]
    if narrow:
        sx.assume(sx.both(v[0] >= 1, v[1] >= 1, v[1] <= 9, v[2] >= 10, v[2] <= 28, v[3] <= 19, v[4] <= 59, v[5] <= 59))
    r = parse(sx, t)
    if sx.both(valid(sx, v), zok):
        sx.check(r is not None, "a date is read")
        y, mo, d, h, mi, s = v
        sx.check(sx.both(r.year == y, r.month == mo, r.day == d), "date")
        sx.check(sx.both(r.hour == h, r.minute == mi, r.second == s), "time")
        sx.check(r.microsecond == us, "fraction in microseconds, truncated")
        sx.check(r.utcoffset() == sx.mk_zone(off).utcoffset(None), "offset")
        sx.observe("date", r)
    else:
        sx.check(r is None, "a field out of range yields no date")


BASE = "2019-12-31T23:58:47"
FRAC = ".625"


def replace(sx, base, lo, hi):
    """One character of a well-formed date replaced by an arbitrary one."""
    i = sx.choice("pos", range(lo, hi))
    c = sx.str("c", [1], ws=True)
    t = base[:i] + c + base[i + 1:]
    r = parse(sx, t)
    if base[i] in DIG:
        if sx.either(sx.both(i == 8, c == " "), sx.both(i == 18, c == "Z")):
            return                          # a blank for the leading zero of the day, or seconds of one digit, are read
        if not (c >= "0" and c <= "9"):
            sx.check(r is None, "a field with another character than digits yields no date")
        else:
            v = [int(x) for x in (t[0:4], t[5:7], t[8:10], t[11:13], t[14:16], t[17:19])]
            sx.check((r is not None) == valid(sx, v), "a date exactly if the fields are in range")
            if r is not None:
                sx.check(sx.both(r.year == v[0], r.month == v[1], r.day == v[2], r.hour == v[3], r.minute == v[4], r.second == v[5]), "the date")
    else:
        sx.check((r is not None) == ((c == base[i]) if i != 10 else sx.either(c == "T", c == "t")), "another separator yields no date")


def delete(sx, base):
    """A separator removed."""
    i = sx.choice("pos", [4, 7, 10, 13, 16, 19] if "." in base else [4, 7, 10, 13, 16])
    r = parse(sx, base[:i] + base[i + 1:])
    sx.check(r is None, "a missing separator yields no date")


def cut(sx, base):
    """A text that ends too early."""
    n = sx.choice("n", range(0, 18))
    r = parse(sx, base[:n] + sx.choice("zone", ["", "Z", "+01:00", ".5", ".5-01:00"]))
    sx.check(r is None, "missing fields yield no date")


def insert(sx, base, lo, hi):
    """An extra character in the date or time."""
    i = sx.choice("pos", range(lo, hi))
    c = sx.str("c", [1], ws=True)
    t = base[:i] + c + base[i:]
    r = parse(sx, t)
    if 0 < i and c == "." and i == 19 and len(base) > 19:
        return
    if c >= "0" and c <= "9" and i >= 20:
        return                              # another digit of the fraction
    if i == 18 and c == ".":
        return                              # seconds of one digit
    if i >= 19 and sx.either(c == "Z", c == "."):
        return                              # a zone or the start of a fraction
    sx.check(r is None, "an extra character yields no date")


def arbitrary(sx, lens):
    t = sx.str("t", lens, ws=True)
    sx.check(parse(sx, t) is None, "too short for a date")


def holes(sx, base, n):
    """Arbitrary characters at n adjacent positions: never an exception."""
    i = sx.choice("pos", range(0, len(base) - n + 1))
    parse(sx, base[:i] + sx.str("c", [n]) + base[i + n:])
    sx.check(True, "returned")


def two(sx, base):
    i = sx.choice("i", range(0, len(base) - 1))
    j = sx.choice("j", range(0, len(base)))
    if j <= i:
        return
    parse(sx, base[:i] + sx.str("c", [1]) + base[i + 1:j] + sx.str("d", [1]) + base[j + 1:])
    sx.check(True, "returned")


def zone(sx, n, m):
    """Offsets with any number of digits: never an exception."""
    s = sx.choice("sign", ["+", "-"])
    r = parse(sx, BASE + s + D(sx, "zh", n) + ":" + D(sx, "zm", m))
    if r is not None:
        o = r.utcoffset()
        sx.check(sx.both(o < sx.mk_zone(1439).utcoffset(None) * 2, o > sx.mk_zone(-1439).utcoffset(None) * 2), "offset within a day")


def zone_any(sx, n):
    parse(sx, BASE + sx.choice("sign", ["+", "-", "Z"]) + sx.str("z", n, ws=True))
    sx.check(True, "returned")


FORMS = {"": (0, 0), "Z": (0, 0), ".5": (500000, 0), ".500001Z": (500001, 0), ".5000017Z": (500001, 0), "+01:00": (0, 60), "-01:00": (0, -60), ".25+01:00": (250000, 60),
         "+00:30": (0, 30), "-00:30": (0, -30), "+24:00": None, ".x": None, "A": None}


def sequence(sx, first):
    """Three dates one after the other that differ in one field, in the fraction or in the zone only: each is read as if it were the first."""
    second = sx.choice("second", list(FORMS))
    pos = sx.choice("field", [3, 6, 9, 12, 15, 18] if second in ("", ".5") else [9])
    a = "2021-03-04T05:06:07"
    d = D(sx, "d", 1)
    sx.assume(d >= "1")
    for t, f in ((a, first), (a[:pos] + d + a[pos + 1:], second), (a, "-00:30" if first in ("", ".5") else "")):
        r = parse(sx, t + f)
        if FORMS[f] is None:
            sx.check(r is None, "no date")
            continue
        us, off = FORMS[f]
        v = [int(x) for x in (t[0:4], t[5:7], t[8:10], t[11:13], t[14:16], t[17:19])]
        sx.check(r is not None, "a date is read")
        sx.check(sx.both(r.year == v[0], r.month == v[1], r.day == v[2], r.hour == v[3], r.minute == v[4], r.second == v[5]), "the date of this text")
        sx.check(r.microsecond == us, "the fraction of this text")
        sx.check(r.utcoffset() == sx.mk_zone(off).utcoffset(None), "the offset of this text")


def scenarios(tier):
    q = tier == "quick"
    r = [("date", lambda sx: well_formed(sx, 0, ""), {"weight": 3})]
    r += [("date-fraction", lambda sx: well_formed(sx, 3, ""), {"weight": 3}), ("date-Z", lambda sx: well_formed(sx, 0, "Z"), {"weight": 3}),
          ("date-fraction-plus", lambda sx: well_formed(sx, 3, "+"), {"weight": 3}),
          ("date-minus", lambda sx: well_formed(sx, 0, "-"), {"weight": 3})]
    for k in range(0, 13 if q else 17):
        for z in ("", "Z", "+", "-"):
            r.append(("fraction-%d%s" % (k, z), lambda sx, k=k, z=z: well_formed(sx, k, z, True)))
    for i, (lo, hi) in enumerate([(0, 5), (5, 10), (10, 14), (14, 19)]):
        r.append(("replace-%d" % i, lambda sx, lo=lo, hi=hi: replace(sx, BASE, lo, hi)))
        r.append(("insert-%d" % i, lambda sx, lo=lo, hi=hi: insert(sx, BASE, lo, hi)))
        r.append(("replace-leap-%d" % i, lambda sx, lo=lo, hi=hi: replace(sx, "2000-02-29T00:00:00" + FRAC, lo, hi)))
        r.append(("insert-fraction-%d" % i, lambda sx, lo=lo, hi=hi: insert(sx, BASE + FRAC + "Z", lo, hi)))
    r += [("insert-end", lambda sx: insert(sx, BASE, 19, 20)), ("insert-Z", lambda sx: insert(sx, BASE + "Z", 19, 21)),
          ("delete", lambda sx: delete(sx, BASE)), ("delete-Z", lambda sx: delete(sx, BASE + "Z")),
          ("delete-fraction", lambda sx: delete(sx, BASE + FRAC)), ("cut", lambda sx: cut(sx, BASE)),
          ("arbitrary", lambda sx: arbitrary(sx, range(8) if q else range(9))),
          ("holes-1", lambda sx: holes(sx, BASE + "+05:30", 1)), ("holes-1f", lambda sx: holes(sx, BASE + FRAC + "-05:30", 1)),
          ("holes-2", lambda sx: holes(sx, BASE + "-05:30", 2), {"weight": 2}),
          ("holes-3", lambda sx: holes(sx, BASE + "+05:30", 3), {"weight": 3}),
          ("zone-any", lambda sx: zone_any(sx, [1, 2, 3, 4, 5, 6]), {"weight": 2})]
    for n, m in ((1, 1), (1, 2), (2, 2), (3, 2), (2, 3), (4, 1), (8, 2), (10, 2), (11, 2), (12, 2), (14, 2), (2, 12)):
        r.append(("zone-%d-%d" % (n, m), lambda sx, n=n, m=m: zone(sx, n, m)))
    r += [("sequence" + f, lambda sx, f=f: sequence(sx, f)) for f in FORMS]
    r.append(("two", lambda sx: two(sx, BASE + "+05:30"), {"weight": 5}))
    return r
