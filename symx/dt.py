"""Stand-in for the datetime and time modules over symbolic fields.

datetime values are proleptic Gregorian fields; instants are exact integers of microseconds.
The local zone is a fixed offset chosen by the scenario (LOCAL, default UTC).  `time.time()` is
an arbitrary non-decreasing clock.
"""
import datetime as _dt
import time as _time
import z3
from symx import core
from symx.core import (Sym, SymInt, SymBool, SymFloat, SymRat, And, Or, Not, mkbool, mkint, ie, sand,
                       snot, Unsupported)
from symx.sstr import SymStr, is_str, int_digits, concat, chars, mkstr, parse_int, tname, as_sym
from symx.containers import HashVal

US = 1000000
DAY_US = 86400 * US
MINYEAR, MAXYEAR = 1, 9999


def D(e):
    return core.ENG.decide(e)


def ev(x):
    e = ie(x)
    if e is None:
        raise TypeError("an integer is required (got type %s)" % tname(x))
    return e


def simp(e):
    return e if isinstance(e, int) else z3.simplify(e)


def is_leap(y):
    if isinstance(y, int):
        return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


CUM = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
MLEN = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def month_len(y, m):
    leap = is_leap(y)
    if isinstance(m, int):
        if m != 2:
            return MLEN[m]
        return (29 if leap else 28) if isinstance(leap, bool) else z3.If(leap, 29, 28)
    feb = (29 if leap else 28) if isinstance(leap, bool) else z3.If(leap, z3.IntVal(29), z3.IntVal(28))
    return z3.If(m == 2, feb, z3.If(Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))


def ordinal(y, m, d):
    """Day number, 0001-01-01 = 1 (int or z3)."""
    if isinstance(y, int) and isinstance(m, int) and isinstance(d, int):
        return _dt.date(y, m, d).toordinal()
    y1 = y - 1
    if isinstance(y, int):
        by = 365 * y1 + y1 // 4 - y1 // 100 + y1 // 400
    else:
        by = 365 * y1 + y1 / 4 - y1 / 100 + y1 / 400
    leap = is_leap(y)
    if isinstance(m, int):
        cum = CUM[m]
        if m > 2:
            cum = cum + ((1 if leap else 0) if isinstance(leap, bool) else z3.If(leap, 1, 0))
    else:
        cum = z3.IntVal(CUM[12])
        for k in range(11, 0, -1):
            cum = z3.If(m == k, z3.IntVal(CUM[k]), cum)
        cum = cum + z3.If(And(m > 2, leap), 1, 0)
    return by + cum + d


def civil(days):
    """Fields of a day number (fresh variables tied by ordinal())."""
    if isinstance(days, int):
        t = _dt.date.fromordinal(days)
        return t.year, t.month, t.day
    E = core.ENG
    if D(Or(days < 1, days > 3652059)):
        raise OverflowError("date value out of range")
    return civil_vars(days)


def civil_vars(days):
    E = core.ENG
    memo = E.hooks.setdefault("civil", {})
    if days.get_id() in memo:
        return memo[days.get_id()][1]
    r = civil_new(days)
    memo[days.get_id()] = (days, r)
    return r


def civil_new(days):
    E = core.ENG
    y, m, d = E.fresh("y"), E.fresh("mo"), E.fresh("d")
    E.add(z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= month_len(y, m)))
    E.add(ordinal(y, m, d) == days)
    # implied, helps the solver: 400 years are 146097 days
    E.add(z3.And(400 * days >= 146097 * (y - 1) - 800, 400 * days <= 146097 * y + 800))
    ord_cache()[(y.get_id(), m.get_id(), d.get_id())] = (days, y, m, d)
    return y, m, d


def ord_cache():
    return core.ENG.hooks.setdefault("ordinals", {})


def day_number(y, m, d):
    """ordinal() with the result named, so that comparisons stay linear."""
    if isinstance(y, int) and isinstance(m, int) and isinstance(d, int):
        return _dt.date(y, m, d).toordinal()
    k = tuple(x if isinstance(x, int) else ("e", x.get_id()) for x in (y, m, d))
    k2 = tuple(x if isinstance(x, int) else x.get_id() for x in (y, m, d))
    c = ord_cache()
    if not any(isinstance(x, int) for x in (y, m, d)) and k2 in c:
        return c[k2][0]
    if k in c:
        return c[k][0]
    E = core.ENG
    D_ = E.fresh("day")
    E.add(D_ == ordinal(y, m, d))
    E.add(z3.And(D_ >= 1, D_ <= 3652059))
    c[k] = (D_, y, m, d)
    return D_


def divmod_c(a, b):
    """(a // b, a % b) for a positive constant b; quotient named so terms stay small."""
    if isinstance(a, int):
        return a // b, a % b
    E = core.ENG
    memo = E.hooks.setdefault("divmod", {})
    k = (a.get_id(), b)
    if k not in memo:
        q, r = E.fresh("q"), E.fresh("r")
        E.add(z3.And(a == q * b + r, r >= 0, r < b))
        memo[k] = (a, q, r)
    return memo[k][1:]


# ------------------------------------------------------------------ timedelta
class timedelta:
    __slots__ = ("us", "rat")

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        total = 0
        fr = None
        for v, k in ((days, DAY_US), (seconds, US), (microseconds, 1), (milliseconds, 1000),
                     (minutes, 60 * US), (hours, 3600 * US), (weeks, 7 * DAY_US)):
            e = ie(v)
            if e is not None:
                total = total + e * k
            elif isinstance(v, float):
                if v.is_integer():
                    total = total + int(v) * k
                else:
                    fr = (fr or 0) + v * k
            elif isinstance(v, (SymRat, SymFloat)):
                if isinstance(v, SymFloat):
                    v = SymRat.of_fp(v)
                t = v * k
                fr = t if fr is None else fr + t
            else:
                raise TypeError("unsupported type for timedelta component: %s" % tname(v))
        if fr is not None:
            total = total + ev(round(fr))
        if not isinstance(total, int):
            total = simp(total)
            if isinstance(total, z3.IntNumRef):
                total = total.as_long()
        self.us = total

    @classmethod
    def _of(cls, us):
        t = object.__new__(timedelta)
        t.us = us if isinstance(us, int) else simp(us)
        if isinstance(t.us, z3.IntNumRef):
            t.us = t.us.as_long()
        return t

    @property
    def days(self): return mkint(divmod_c(self.us, DAY_US)[0])
    @property
    def seconds(self):
        return mkint(divmod_c(divmod_c(self.us, DAY_US)[1], US)[0])
    @property
    def microseconds(self): return mkint(divmod_c(self.us, US)[1])

    def total_seconds(self):
        if isinstance(self.us, int):
            return self.us / US
        return SymRat(self.us, US)

    def __add__(self, o):
        return timedelta._of(self.us + o.us) if isinstance(o, timedelta) else NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return timedelta._of(self.us - o.us) if isinstance(o, timedelta) else NotImplemented

    def __neg__(self): return timedelta._of(-self.us)
    def __pos__(self): return self

    def __abs__(self):
        if isinstance(self.us, int):
            return timedelta._of(abs(self.us))
        return timedelta._of(z3.If(self.us >= 0, self.us, -self.us))

    def __mul__(self, o):
        e = ie(o)
        if e is not None:
            return timedelta._of(self.us * e)
        if isinstance(o, (float, SymRat)):
            return timedelta._of(ev(round(core.SymRat(self.us) * o)))
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, timedelta):
            a, b = mkint(self.us), mkint(o.us)
            return a / b
        return timedelta._of(ev(round(mkint(self.us) / o)))

    def __floordiv__(self, o):
        if isinstance(o, timedelta):
            if isinstance(o.us, int) and o.us > 0:
                return mkint(divmod_c(self.us, o.us)[0])
            return mkint(self.us) // mkint(o.us)
        return timedelta._of(ev(mkint(self.us) // o))

    def __mod__(self, o):
        return timedelta._of(ev(mkint(self.us) % mkint(o.us)))

    def _c(self, o, f):
        if not isinstance(o, timedelta):
            return NotImplemented
        return mkbool(f(self.us, o.us))

    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b)
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def __hash__(self):
        return HashVal(("td", mkint(self.us)))

    def __bool__(self):
        return self.us != 0 if isinstance(self.us, int) else D(self.us != 0)

    def __str__(self):
        return str(_dt.timedelta(microseconds=core.ENG.concretise(mkint(self.us))
                                 if not isinstance(self.us, int) else self.us))

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def sx_in_model(self, m, eng): return {"td": eng.value_of(mkint(self.us), m)}


timedelta.min = timedelta._of(-999999999 * DAY_US)
timedelta.max = timedelta._of(999999999 * DAY_US + DAY_US - 1)
timedelta.resolution = timedelta._of(1)


# ------------------------------------------------------------------ zones
class tzinfo:
    def utcoffset(self, dt): raise NotImplementedError
    def tzname(self, dt): raise NotImplementedError
    def dst(self, dt): return None


def offset_text(us, colon=True, zero_utc=False):
    """+HH:MM[:SS[.ffffff]] of an offset in microseconds (int or z3)."""
    neg = us < 0 if isinstance(us, int) else D(us < 0)
    a = -us if neg else us
    minutes, rest = divmod_c(a, 60 * US)
    h, mi = divmod_c(minutes, 60)
    out = concat("-" if neg else "+", int_digits(mkint(h), 2))
    out = concat(concat(out, ":" if colon else ""), int_digits(mkint(mi), 2))
    s, us_ = divmod_c(rest, US)
    nz = (rest != 0) if isinstance(rest, int) else D(rest != 0)
    if nz:
        out = concat(concat(out, ":" if colon else ""), int_digits(mkint(s), 2))
        if (us_ != 0) if isinstance(us_, int) else D(us_ != 0):
            out = concat(concat(out, "."), int_digits(mkint(us_), 6))
    return out


class timezone(tzinfo):
    def __init__(self, offset, name=None):
        if not isinstance(offset, timedelta):
            raise TypeError("timezone() argument 1 must be datetime.timedelta, not %s" % tname(offset))
        us = offset.us
        bad = not (-DAY_US < us < DAY_US) if isinstance(us, int) else D(Or(us <= -DAY_US, us >= DAY_US))
        if bad:
            raise ValueError("offset must be a timedelta strictly between -timedelta(hours=24) and "
                             "timedelta(hours=24).")
        self._offset, self._name = offset, name

    def utcoffset(self, dt): return self._offset
    def dst(self, dt): return None

    def tzname(self, dt):
        if self._name is not None:
            return self._name
        us = self._offset.us
        if (us == 0) if isinstance(us, int) else D(us == 0):
            return "UTC"
        return concat("UTC", offset_text(us))

    def __eq__(self, o):
        if isinstance(o, timezone):
            return self._offset == o._offset
        return NotImplemented

    def __hash__(self):
        return HashVal(("tz", mkint(self._offset.us)))

    def __str__(self): return self.tzname(None)
    def __repr__(self): return "timezone"
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


timezone.utc = timezone(timedelta(0))
timezone.min = timezone(timedelta._of(-DAY_US + 60 * US))
timezone.max = timezone(timedelta._of(DAY_US - 60 * US))


def local_us():
    return core.ENG.hooks.get("local_us", 0)


def local_zone():
    return timezone(timedelta._of(local_us()), core.ENG.hooks.get("local_name", "LCL"))


# ------------------------------------------------------------------ date / time of day (thin)
class date:
    def __new__(cls, *a, **k):
        if cls is date:
            return _make_date(*a, **k)
        return object.__new__(cls)

    @classmethod
    def today(cls):
        return datetime.now().date()


def _make_date(y, m, d):
    o = object.__new__(SDate)
    o._f = (ev(y), ev(m), ev(d))
    return o


class SDate(date):
    @property
    def year(self): return mkint(self._f[0])
    @property
    def month(self): return mkint(self._f[1])
    @property
    def day(self): return mkint(self._f[2])

    def toordinal(self): return mkint(ordinal(*self._f))
    def isoformat(self): return date_text(self._f)
    def __str__(self): return self.isoformat()

    def __eq__(self, o):
        if isinstance(o, SDate):
            return sand(*[mkbool(a == b) for a, b in zip(self._f, o._f)])
        return NotImplemented

    def _k(self): return ordinal(*self._f)
    def __lt__(self, o): return mkbool(self._k() < o._k())
    def __le__(self, o): return mkbool(self._k() <= o._k())
    def __gt__(self, o): return mkbool(self._k() > o._k())
    def __ge__(self, o): return mkbool(self._k() >= o._k())

    def __hash__(self):
        return HashVal(("date",) + tuple(map(mkint, self._f)))


class time:
    def __init__(self, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        self.hour, self.minute, self.second, self.microsecond, self.tzinfo = \
            hour, minute, second, microsecond, tzinfo

    def isoformat(self):
        out = concat(int_digits(self.hour, 2), ":")
        out = concat(concat(out, int_digits(self.minute, 2)), ":")
        out = concat(out, int_digits(self.second, 2))
        return out


time.min = time()


def date_text(f):
    out = concat(int_digits(mkint(f[0]), 4), "-")
    out = concat(concat(out, int_digits(mkint(f[1]), 2)), "-")
    return concat(out, int_digits(mkint(f[2]), 2))


class StructTime(tuple):
    """time.struct_time with symbolic fields."""
    def __new__(cls, f):
        return tuple.__new__(cls, f)
    tm_year = property(lambda s: s[0])
    tm_mon = property(lambda s: s[1])
    tm_mday = property(lambda s: s[2])
    tm_hour = property(lambda s: s[3])
    tm_min = property(lambda s: s[4])
    tm_sec = property(lambda s: s[5])
    tm_wday = property(lambda s: s[6])
    tm_yday = property(lambda s: s[7])
    tm_isdst = property(lambda s: s[8])


# ------------------------------------------------------------------ datetime
class datetime(SDate):
    def __new__(cls, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None,
                *, fold=0):
        f = [ev(year), ev(month), ev(day), ev(hour), ev(minute), ev(second), ev(microsecond)]
        names = ("year %s is out of range", "month must be in 1..12", "day is out of range for month",
                 "hour must be in 0..23", "minute must be in 0..59", "second must be in 0..59",
                 "microsecond must be in 0..999999")
        lo = (1, 1, 1, 0, 0, 0, 0)
        hi = [9999, 12, None, 23, 59, 59, 999999]
        symf = [i for i in range(7) if not isinstance(f[i], int)]
        fine = len(symf) == 7 and not D(Or(*[Or(f[i] < lo[i], f[i] > (hi[i] or month_len(f[0], f[1]))) for i in symf]))
        for i in () if fine else (0, 1, 2, 3, 4, 5, 6):
            h = month_len(f[0], f[1]) if i == 2 else hi[i]
            x = f[i]
            if isinstance(x, int) and isinstance(h, int):
                bad = not lo[i] <= x <= h
            else:
                bad = D(Or(x < lo[i], x > h))
            if bad:
                raise ValueError(names[i] if i else "year is out of range")
        if tzinfo is not None and not isinstance(tzinfo, _TZ):
            raise TypeError("tzinfo argument must be None or of a tzinfo subclass, not type '%s'" % tname(tzinfo))
        return cls._mk(f, tzinfo)

    __slots__ = ("_df", "_dn", "_t", "_tz")

    @classmethod
    def _mk(cls, f, tz, day=None):
        """From fields; or from a day number and (None, None, None, h, mi, s, us)."""
        o = object.__new__(datetime)
        f = [x if x is None or isinstance(x, int) else simp(x) for x in f]
        f = [x.as_long() if isinstance(x, z3.IntNumRef) else x for x in f]
        if day is not None and not isinstance(day, int):
            day = simp(day)
            if isinstance(day, z3.IntNumRef):
                day = day.as_long()
        if isinstance(day, int):
            t = _dt.date.fromordinal(day)
            f[:3] = [t.year, t.month, t.day]
        o._df = tuple(f[:3]) if f[0] is not None else None
        o._dn = day
        o._t = tuple(f[3:])
        o._tz = tz
        return o

    @property
    def _f(self):
        if self._df is None:
            self._df = civil_vars(self._dn)
        return self._df + self._t

    def _day(self):
        if self._dn is None:
            self._dn = day_number(*self._df)
        return self._dn

    @property
    def year(self): return mkint(self._f[0])
    @property
    def month(self): return mkint(self._f[1])
    @property
    def day(self): return mkint(self._f[2])
    @property
    def hour(self): return mkint(self._t[0])
    @property
    def minute(self): return mkint(self._t[1])
    @property
    def second(self): return mkint(self._t[2])
    @property
    def microsecond(self): return mkint(self._t[3])
    @property
    def tzinfo(self): return self._tz
    @property
    def fold(self): return 0

    # -- instants
    def local(self):
        """Microseconds of the wall clock since day 0 (int or z3)."""
        h, mi, s, us = self._t
        return (((self._day() * 24 + h) * 60 + mi) * 60 + s) * US + us

    def off(self):
        o = self.utcoffset()
        return None if o is None else o.us

    def inst(self):
        o = self.off()
        return self.local() - (local_us() if o is None else o)

    @classmethod
    def _from_local(cls, us, tz):
        days, rest = divmod_c(us if isinstance(us, int) else simp(us), DAY_US)
        if (not 1 <= days <= 3652059) if isinstance(days, int) else D(Or(days < 1, days > 3652059)):
            raise OverflowError("date value out of range")
        secs, micro = divmod_c(rest, US)
        mins, s = divmod_c(secs, 60)
        h, mi = divmod_c(mins, 60)
        return cls._mk((None, None, None, h, mi, s, micro), tz, day=days)

    def utcoffset(self):
        return None if self._tz is None else self._tz.utcoffset(self)

    def dst(self): return None if self._tz is None else self._tz.dst(self)
    def tzname(self): return None if self._tz is None else self._tz.tzname(self)

    EPOCH = 719163 * DAY_US

    def timestamp(self):
        u = self.inst() - self.EPOCH
        if isinstance(u, int):
            return u / US
        return SymRat(u, US)

    @classmethod
    def fromtimestamp(cls, ts, tz=None):
        us = to_us(ts)
        if tz is None:
            return cls._from_local(us + cls.EPOCH + local_us(), None)
        return cls._from_local(us + cls.EPOCH + tz.utcoffset(None).us, tz)

    @classmethod
    def utcfromtimestamp(cls, ts):
        return cls._from_local(to_us(ts) + cls.EPOCH, None)

    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(clock(), tz)

    @classmethod
    def utcnow(cls):
        return cls.utcfromtimestamp(clock())

    today = now

    @classmethod
    def combine(cls, d, t, tzinfo=True):
        return cls._mk(tuple(d._f[:3]) + (ev(t.hour), ev(t.minute), ev(t.second), ev(t.microsecond)),
                       t.tzinfo if tzinfo is True else tzinfo)

    def astimezone(self, tz=None):
        if tz is None:
            tz = local_zone()
        off = tz.utcoffset(self).us
        if self._tz is tz:
            return self
        return datetime._from_local(self.inst() + off, tz)

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None,
                microsecond=None, tzinfo=True, *, fold=None):
        vals = [year, month, day, hour, minute, second, microsecond]
        tz = self._tz if tzinfo is True else tzinfo
        if all(v is None for v in vals):
            if tz is not None and not isinstance(tz, _TZ):
                raise TypeError("tzinfo argument must be None or of a tzinfo subclass")
            return self._with_tz(tz)
        if year is None and month is None and day is None:
            t = datetime(2000, 1, 1, *[mkint(a) if v is None else v for v, a in zip(vals[3:], self._t)], tzinfo=tz)
            t._df, t._dn = self._df, self._dn
            return t
        f = [mkint(a) if v is None else v for v, a in zip(vals, self._f)]
        return datetime(*f, tzinfo=tz)

    def _with_tz(self, tz):
        o = object.__new__(datetime)
        self._same_date(o)
        o._t, o._tz = self._t, tz
        return o

    def _same_date(self, o):
        o._df, o._dn = self._df, self._dn

    def date(self): return _make_date(self.year, self.month, self.day)
    def time(self): return time(self.hour, self.minute, self.second, self.microsecond)
    def timetz(self): return time(self.hour, self.minute, self.second, self.microsecond, self._tz)

    def weekday(self):
        return mkint((self._day() + 6) % 7)

    def isoweekday(self): return self.weekday() + 1

    def timetuple(self):
        return StructTime((self.year, self.month, self.day, self.hour, self.minute, self.second, 0, 0, -1))

    def utctimetuple(self):
        d = self if self._tz is None else datetime._from_local(self.inst(), None)
        return StructTime((d.year, d.month, d.day, d.hour, d.minute, d.second, 0, 0, 0))

    def toordinal(self): return mkint(self._day())

    # -- text
    def isoformat(self, sep="T", timespec="auto"):
        y, mo, d, h, mi, s, us = self._f
        out = concat(date_text(self._f[:3]), sep)
        out = concat(concat(out, int_digits(mkint(h), 2)), ":")
        out = concat(out, int_digits(mkint(mi), 2))
        if timespec == "auto":
            nz = (us != 0) if isinstance(us, int) else D(us != 0)
            timespec = "microseconds" if nz else "seconds"
        if timespec in ("seconds", "milliseconds", "microseconds"):
            out = concat(concat(out, ":"), int_digits(mkint(s), 2))
        if timespec == "milliseconds":
            out = concat(concat(out, "."), int_digits(mkint(divmod_c(us, 1000)[0]), 3))
        elif timespec == "microseconds":
            out = concat(concat(out, "."), int_digits(mkint(us), 6))
        o = self.off()
        if o is not None:
            out = concat(out, offset_text(o))
        return out

    def __str__(self): return self.isoformat(" ")
    def __repr__(self): return "datetime"

    def __format__(self, spec):
        return self.strftime(spec) if spec else self.__str__()

    def strftime(self, fmt):
        y, mo, d, h, mi, s, us = map(mkint, self._f)
        out = ""
        i = 0
        if isinstance(fmt, SymStr):
            raise Unsupported("symbolic strftime format")
        while i < len(fmt):
            c = fmt[i]
            if c != "%":
                out = concat(out, c)
                i += 1
                continue
            c = fmt[i + 1]
            i += 2
            if c == "Y":
                # glibc does not pad %Y
                out = concat(out, int_digits(y, 0))
            elif c in "mdHMS":
                out = concat(out, int_digits({"m": mo, "d": d, "H": h, "M": mi, "S": s}[c], 2))
            elif c == "f":
                out = concat(out, int_digits(us, 6))
            elif c == "y":
                out = concat(out, int_digits(y % 100, 2))
            elif c == "z":
                o = self.off()
                out = concat(out, "" if o is None else offset_text(o, colon=False))
            elif c == ":" and fmt[i] == "z":
                i += 1
                o = self.off()
                out = concat(out, "" if o is None else offset_text(o))
            elif c == "Z":
                n = self.tzname()
                out = concat(out, n or "")
            elif c == "T":
                for j, x in enumerate((h, mi, s)):
                    out = concat(out, ":" if j else "")
                    out = concat(out, int_digits(x, 2))
            elif c == "F":
                out = concat(out, concat(int_digits(y, 0), concat("-", concat(int_digits(mo, 2), concat("-", int_digits(d, 2))))))
            elif c == "%":
                out = concat(out, "%")
            else:
                raise Unsupported("strftime %%%s" % c)
        return out

    @classmethod
    def strptime(cls, text, fmt):
        if not is_str(text):
            raise TypeError("strptime() argument 1 must be str, not %s" % tname(text))
        if isinstance(text, str) and isinstance(fmt, str):
            return lift(_dt.datetime.strptime(text, fmt))
        if isinstance(fmt, SymStr):
            raise Unsupported("symbolic strptime format")
        import _strptime
        import re
        from symx.rex import SymPattern
        for k in re.findall(r"%(.)", fmt):
            if k not in "YmdHMSfzZ%y":
                raise Unsupported("strptime %%%s" % k)
        pat = _strptime.TimeRE().pattern(fmt)
        m = SymPattern(pat, re.I).match(text)
        if m is None:
            raise ValueError("time data does not match format %r" % fmt)
        if len(text) != m.end():
            raise ValueError("unconverted data remains: ...")
        g = m.groupdict()
        y = parse_field(g.get("Y")) if "Y" in g else 1900
        mo = parse_field(g.get("m")) if "m" in g else 1
        d = parse_field(g.get("d")) if "d" in g else 1
        h = parse_field(g.get("H")) if "H" in g else 0
        mi = parse_field(g.get("M")) if "M" in g else 0
        s = parse_field(g.get("S")) if "S" in g else 0
        us = 0
        if "f" in g:
            t = g.get("f")
            us = parse_field(t) * 10 ** (6 - len(t))
        tz = None
        if "z" in g and g.get("z") is not None:
            tz = zone_of(g.get("z"))
        return cls(y, mo, d, h, mi, s, us, tz)

    @classmethod
    def fromisoformat(cls, text):
        if not is_str(text):
            raise TypeError("fromisoformat: argument must be str")
        if isinstance(text, str):
            return lift(_dt.datetime.fromisoformat(text))
        return iso_parse(cls, text)

    # -- comparison
    def _pair(self, o):
        """Comparable integer pair, or None for naive/aware mixes."""
        a, b = self.off(), o.off()
        if (a is None) != (b is None):
            return None
        if a is None or self._tz is o._tz:
            if self._df is not None and o._df is not None and (self._dn is None or o._dn is None):
                return self, o, False
            return self.local(), o.local(), True
        return self.local() - a, o.local() - b, True

    def __eq__(self, o):
        if not isinstance(o, datetime):
            return NotImplemented
        p = self._pair(o)
        if p is None:
            return False
        x, y, num = p
        if num:
            return mkbool(x == y)
        return mkbool(And(*[(a == b) for a, b in zip(self._f, o._f)]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def _lt(self, o, strict):
        if not isinstance(o, datetime):
            return NotImplemented
        p = self._pair(o)
        if p is None:
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        x, y, num = p
        if num:
            return mkbool(x < y if strict else x <= y)
        r = not strict
        for a, b in reversed(list(zip(self._f, o._f))):
            if isinstance(a, int) and isinstance(b, int):
                r = True if a < b else (r if a == b else False)
            else:
                r = Or(a < b, And(a == b, r))
        return mkbool(r)

    def __lt__(self, o): return self._lt(o, True)
    def __le__(self, o): return self._lt(o, False)
    def __gt__(self, o): return o._lt(self, True) if isinstance(o, datetime) else NotImplemented
    def __ge__(self, o): return o._lt(self, False) if isinstance(o, datetime) else NotImplemented

    def __hash__(self):
        if self.off() is None:
            return HashVal(("dtn",) + tuple(map(mkint, self._f)))
        return HashVal(("dta", mkint(simp(self.inst()))))

    def __add__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        return datetime._from_local(self.local() + o.us, self._tz)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return datetime._from_local(self.local() - o.us, self._tz)
        if not isinstance(o, datetime):
            return NotImplemented
        a, b = self.off(), o.off()
        if (a is None) != (b is None):
            raise TypeError("can't subtract offset-naive and offset-aware datetimes")
        if a is None or self._tz is o._tz:
            a = b = 0
        return timedelta._of((self.local() - a) - (o.local() - b))

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def sx_in_model(self, m, eng):
        o = self.off()
        if self._df is not None:
            d = [eng.value_of(mkint(x), m) for x in self._df]
        else:
            t = _dt.date.fromordinal(eng.value_of(mkint(self._dn), m))
            d = [t.year, t.month, t.day]
        return {"dt": d + [eng.value_of(mkint(x), m) for x in self._t],
                "off": None if o is None else eng.value_of(mkint(o), m)}


_TZ = (tzinfo, _dt.tzinfo)


def to_us(ts):
    """Microseconds of a timestamp in seconds, rounded half to even like CPython."""
    e = ie(ts)
    if e is not None:
        return e * US
    if isinstance(ts, float):
        d = _dt.datetime.fromtimestamp(ts, _dt.timezone.utc) - _dt.datetime(1970, 1, 1, tzinfo=_dt.timezone.utc)
        return (d.days * 86400 + d.seconds) * US + d.microseconds
    if isinstance(ts, SymFloat):
        ts = SymRat.of_fp(ts)
    if isinstance(ts, SymRat):
        return whole(ts * US)
    raise TypeError("an integer is required (got type %s)" % tname(ts))


def whole(r):
    """round() of a rational; linear when it is syntactically an integer."""
    return ev(round(r))


def parse_field(t):
    return parse_int(t) if isinstance(t, SymStr) else int(t)


def zone_of(t):
    """tzinfo of a %z match."""
    if isinstance(t, str) and t in ("Z", "z"):
        return timezone.utc
    cs = chars(t)
    if D(core.Or(*[cs[0] == 90, cs[0] == 122]) if not isinstance(cs[0], int) else cs[0] in (90, 122)):
        return timezone.utc
    neg = D(cs[0] == 45) if not isinstance(cs[0], int) else cs[0] == 45
    digits = []
    frac = None
    for c in cs[1:]:
        if (c == 58) if isinstance(c, int) else D(c == 58):
            continue
        if (c == 46) if isinstance(c, int) else D(c == 46):
            raise Unsupported("fractional offsets")
        digits.append(c)
    v = [parse_field(mkstr(digits[i:i + 2])) for i in range(0, len(digits), 2)]
    sec = v[0] * 3600 + (v[1] if len(v) > 1 else 0) * 60 + (v[2] if len(v) > 2 else 0)
    if neg:
        sec = -sec
    return timezone(timedelta(seconds=sec))


def iso_parse(cls, text):
    """fromisoformat for extended formats YYYY-MM-DD[*HH:MM[:SS[.f+]][offset]]."""
    cs = list(chars(text))
    bad = ValueError("Invalid isoformat string")

    def digits(i, n):
        from symx.sstr import char_pred
        if i + n > len(cs):
            raise bad
        for c in cs[i:i + n]:
            if not D(char_pred(c, "dec10", lambda x: 48 <= x <= 57)):
                raise bad
        return parse_field(mkstr(cs[i:i + n]))

    def at(i, ch):
        if i >= len(cs):
            return False
        return cs[i] == ord(ch) if isinstance(cs[i], int) else D(cs[i] == ord(ch))
    y = digits(0, 4)
    if not at(4, "-"):
        raise Unsupported("basic ISO date")
    mo = digits(5, 2)
    if not at(7, "-"):
        raise bad
    d = digits(8, 2)
    h = mi = s = us = 0
    tz = None
    if len(cs) > 10:
        i = 11
        h = digits(i, 2)
        i += 2
        if at(i, ":"):
            mi = digits(i + 1, 2)
            i += 3
            if at(i, ":"):
                s = digits(i + 1, 2)
                i += 3
                if at(i, ".") or at(i, ","):
                    i += 1
                    j = i
                    from symx.sstr import char_pred
                    while j < len(cs) and D(char_pred(cs[j], "dec10", lambda x: 48 <= x <= 57)):
                        j += 1
                    if j == i:
                        raise bad
                    k = min(6, j - i)
                    us = parse_field(mkstr(cs[i:i + k])) * 10 ** (6 - k)
                    i = j
        if i < len(cs):
            if at(i, "Z"):
                tz = timezone.utc
                i += 1
                if i != len(cs):
                    raise bad
            elif at(i, "+") or at(i, "-"):
                neg = at(i, "-")
                oh = digits(i + 1, 2)
                om = os = 0
                j = i + 3
                colon = at(j, ":")
                if j < len(cs):
                    j += 1 if colon else 0
                    om = digits(j, 2)
                    j += 2
                    if j < len(cs):
                        if colon:
                            if not at(j, ":"):
                                raise bad
                            j += 1
                        os = digits(j, 2)
                        j += 2
                if j != len(cs):
                    raise bad
                sec = oh * 3600 + om * 60 + os
                tz = timezone(timedelta(seconds=-sec if neg else sec))
                if isinstance(tz._offset.us, int) and tz._offset.us == 0:
                    tz = timezone.utc
            else:
                raise bad
    return cls(y, mo, d, h, mi, s, us, tz)


def lift(v):
    """Real datetime object -> model object."""
    if isinstance(v, _dt.timezone) or (isinstance(v, _dt.tzinfo)):
        o = v.utcoffset(None)
        if o is None:
            raise Unsupported("tzinfo without a fixed offset")
        if o == _dt.timedelta(0) and v is _dt.timezone.utc:
            return timezone.utc
        return timezone(lift(o), v.tzname(None))
    if isinstance(v, _dt.timedelta):
        return timedelta._of((v.days * 86400 + v.seconds) * US + v.microseconds)
    if isinstance(v, _dt.datetime):
        tz = v.tzinfo
        return datetime._mk((v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond),
                            None if tz is None else (lift(tz) if not isinstance(tz, tzinfo) else tz))
    return v


datetime.min = datetime._mk((1, 1, 1, 0, 0, 0, 0), None)
datetime.max = datetime._mk((9999, 12, 31, 23, 59, 59, 999999), None)
datetime.resolution = timedelta.resolution


# ------------------------------------------------------------------ clock
def clock():
    """time.time(): arbitrary non-decreasing instants in microseconds, as seconds."""
    us = clock_us()
    if isinstance(us, int):
        return us / US
    return SymRat(us, US)


IMPORT_CLOCK_US = 10 ** 15        # every reading during an import, and in scenarios that do not free the clock


def clock_us():
    E = core.ENG
    if E.importing or "clock_min" not in E.hooks:
        return IMPORT_CLOCK_US
    st = E.hooks.setdefault("clock", dict(n=0, last=None))
    st["n"] += 1
    v = z3.Int("clock#%d" % st["n"])
    lo = st["last"] if st["last"] is not None else E.hooks.get("clock_min", 10 ** 15)
    E.add(z3.And(v >= lo, v <= E.hooks.get("clock_max", 3 * 10 ** 15)))
    st["last"] = v
    E.inputs.append(("clock#%d" % st["n"], "clock", SymInt(v)))
    return v


def mktime(t):
    f = [ev(x) for x in tuple(t)[:6]]
    return _mktime(f)


def _mktime(f):
    sec = ((ordinal(*f[:3]) * 24 + f[3]) * 60 + f[4]) * 60 + f[5] - 719163 * 86400
    lo = local_us()
    sec = sec - (lo // US if isinstance(lo, int) else lo / US)
    if isinstance(sec, int):
        return float(sec)
    return SymRat(simp(sec))


class TimeModule:
    struct_time = StructTime
    timezone = 0
    altzone = 0
    daylight = 0
    tzname = ("UTC", "UTC")

    def time(self): return clock()
    def perf_counter(self): return clock()
    def monotonic(self): return clock()
    def process_time(self): return clock()
    def time_ns(self):
        return mkint(clock_us() * 1000)
    perf_counter_ns = monotonic_ns = time_ns
    def sleep(self, s): pass
    def mktime(self, t): return mktime(t)

    def gmtime(self, ts=None):
        return datetime.utcfromtimestamp(clock() if ts is None else ts).timetuple()

    def localtime(self, ts=None):
        return datetime.fromtimestamp(clock() if ts is None else ts).timetuple()

    def strftime(self, fmt, t=None):
        t = t or self.localtime()
        return datetime(*tuple(t)[:6]).strftime(fmt)

    def strptime(self, s, fmt):
        return datetime.strptime(s, fmt).timetuple()


class DatetimeModule:
    def __init__(self):
        self.datetime, self.timedelta, self.timezone, self.tzinfo = datetime, timedelta, timezone, tzinfo
        self.date, self.time = date, time
        self.MINYEAR, self.MAXYEAR, self.UTC = 1, 9999, timezone.utc


class CalendarModule:
    def timegm(self, t):
        f = [ev(x) for x in tuple(t)[:6]]
        return mkint(((ordinal(*f[:3]) * 24 + f[3]) * 60 + f[4]) * 60 + f[5] - 719163 * 86400)

    def isleap(self, y): return mkbool(is_leap(ev(y)))

    def monthrange(self, y, m): raise Unsupported("calendar.monthrange")
