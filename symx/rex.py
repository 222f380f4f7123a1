"""A small backtracking regular expression matcher over symbolic strings.

The pattern is parsed by CPython's own parser (re._parser); every character test on a
symbolic character is an engine decision.  Also the executor behind datetime.strptime.
"""
import re as _re
import re._parser as sp
import re._constants as sc
from symx import core
from symx.core import And, Or, Not, Unsupported
from symx.sstr import SymStr, as_sym, chars, mkstr, is_str, char_pred, concat, ceq, LOWER, tab_of, tab_bool

CATS = {
    sc.CATEGORY_DIGIT: ("digit", lambda x: chr(x).isdecimal(), False),
    sc.CATEGORY_NOT_DIGIT: ("digit", lambda x: chr(x).isdecimal(), True),
    sc.CATEGORY_SPACE: ("space", lambda x: chr(x).isspace(), False),
    sc.CATEGORY_NOT_SPACE: ("space", lambda x: chr(x).isspace(), True),
    sc.CATEGORY_WORD: ("word", lambda x: chr(x).isalnum() or x == 95, False),
    sc.CATEGORY_NOT_WORD: ("word", lambda x: chr(x).isalnum() or x == 95, True),
}


def cat_test(cat, c):
    if cat not in CATS:
        raise Unsupported("regex category")
    name, f, neg = CATS[cat]
    e = char_pred(c, name, f)
    return Not(e) if neg else e


def lit_test(v, c, flags):
    if flags & _re.I:
        vs = {v}
        for ch in (chr(v).lower(), chr(v).upper()):
            if len(ch) == 1:
                vs.add(ord(ch))
        return Or(*[ceq(c, x) for x in vs])
    return ceq(c, v)


def set_test(items, c, flags):
    neg = False
    alts = []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            alts.append(lit_test(av, c, flags))
        elif op is sc.RANGE:
            lo, hi = av
            rng = [(lo, hi)]
            if flags & _re.I:
                rng += [(a, b) for a, b in (((lo + 32, hi + 32),) if 65 <= lo and hi <= 90 else
                                            (((lo - 32, hi - 32),) if 97 <= lo and hi <= 122 else ()))]
            for a, b in rng:
                alts.append((a <= c <= b) if isinstance(c, int) else
                            tab_bool(tab_of(c)[1], [a <= x <= b for x in tab_of(c)[2]]) if tab_of(c) else And(c >= a, c <= b))
        elif op is sc.CATEGORY:
            alts.append(cat_test(av, c))
        else:
            raise Unsupported("regex set %s" % op)
    e = Or(*alts)
    return Not(e) if neg else e


class M:
    def __init__(self, cs, groups):
        self.cs = cs
        self.n = len(cs)


def match_seq(seq, i, cs, pos, groups, flags, k):
    """Match seq[i:] at pos; k(pos, groups) continues.  Returns k's result or None."""
    if i == len(seq):
        return k(pos, groups)
    op, av = seq[i]

    def nxt(p, g):
        return match_seq(seq, i + 1, cs, p, g, flags, k)

    D = core.ENG.decide
    if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN, sc.CATEGORY):
        if pos >= len(cs):
            return None
        c = cs[pos]
        if op is sc.LITERAL:
            e = lit_test(av, c, flags)
        elif op is sc.NOT_LITERAL:
            e = Not(lit_test(av, c, flags))
        elif op is sc.ANY:
            e = True if flags & _re.S else Not(ceq(c, 10))
        elif op is sc.IN:
            e = set_test(av, c, flags)
        else:
            e = cat_test(av, c)
        return nxt(pos + 1, groups) if D(e) else None
    if op is sc.SUBPATTERN:
        gid, add, dele, p = av
        fl = (flags | add) & ~dele
        start = pos

        def after(q, g):
            if gid is not None:
                g = dict(g)
                g[gid] = (start, q)
            return nxt(q, g)
        return match_seq(list(p), 0, cs, pos, groups, fl, after)
    if op is sc.BRANCH:
        for alt in av[1]:
            r = match_seq(list(alt), 0, cs, pos, groups, flags, nxt)
            if r is not None:
                return r
        return None
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
        lo, hi, p = av
        p = list(p)
        hi = 10 ** 9 if hi is sc.MAXREPEAT else hi

        def rep(n, q, g, last):
            def more():
                if n >= hi or (n > lo and q == last):
                    return None
                return match_seq(p, 0, cs, q, g, flags, lambda q2, g2: rep(n + 1, q2, g2, q)
                                 if q2 != q or n < lo else None)
            if n < lo:
                return more()
            if op is sc.MIN_REPEAT:
                r = nxt(q, g)
                return r if r is not None else more()
            r = more()
            return r if r is not None else nxt(q, g)
        return rep(0, pos, groups, -1)
    if op is sc.AT:
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            ok = pos == 0 or (bool(flags & _re.M) and av is sc.AT_BEGINNING and D(ceq(cs[pos - 1], 10)))
        elif av is sc.AT_END_STRING:
            ok = pos == len(cs)
        elif av is sc.AT_END:
            ok = pos == len(cs) or (pos == len(cs) - 1 and D(ceq(cs[pos], 10))) or \
                (bool(flags & _re.M) and D(ceq(cs[pos], 10)))
        elif av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            def w(j):
                return 0 <= j < len(cs) and D(cat_test(sc.CATEGORY_WORD, cs[j]))
            ok = w(pos - 1) != w(pos)
            if av is sc.AT_NON_BOUNDARY:
                ok = not ok
        else:
            raise Unsupported("regex anchor")
        return nxt(pos, groups) if ok else None
    if op in (sc.ASSERT, sc.ASSERT_NOT):
        d, p = av
        if d > 0:
            r = match_seq(list(p), 0, cs, pos, groups, flags, lambda q, g: (q, g))
        else:
            w = p.getwidth()
            if w[0] != w[1]:
                raise Unsupported("look-behind")
            r = None if pos < w[0] else match_seq(list(p), 0, cs, pos - w[0], groups, flags,
                                                  lambda q, g: (q, g) if q == pos else None)
        if (r is None) == (op is sc.ASSERT):
            return None
        return nxt(pos, r[1] if op is sc.ASSERT else groups)
    if op is sc.GROUPREF:
        if av not in groups:
            return None
        a, b = groups[av]
        if pos + b - a > len(cs):
            return None
        if D(And(*[ceq(cs[a + j], cs[pos + j]) for j in range(b - a)])):
            return nxt(pos + b - a, groups)
        return None
    raise Unsupported("regex %s" % op)


class SymMatch:
    def __init__(self, pat, cs, span, groups):
        self.re, self.cs, self._span, self._g = pat, cs, span, groups
        self.string = mkstr(cs)
        self.lastindex = max(groups) if groups else None

    def _ix(self, g):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g == 0:
            return self._span
        if not 0 <= g <= self.re.groups:
            raise IndexError("no such group")
        return self._g.get(g)

    def _one(self, g, default=None):
        s = self._ix(g)
        return default if s is None else mkstr(self.cs[s[0]:s[1]])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        r = tuple(self._one(g) for g in gs)
        return r[0] if len(r) == 1 else r

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        from symx.containers import SDict
        d = SDict()
        for n in self.re.groupindex:
            d[n] = self._one(n, default)
        return d

    def span(self, g=0):
        return self._ix(g) or (-1, -1)

    def start(self, g=0): return self.span(g)[0]
    def end(self, g=0): return self.span(g)[1]
    def __bool__(self): return True


class SymPattern:
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, SymStr):
            pattern = core.ENG.concretise(pattern)
        if hasattr(pattern, "pattern"):
            flags |= pattern.flags & ~_re.U
            pattern = pattern.pattern
        self.real = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self.real.flags
        self.groupindex = self.real.groupindex
        self.groups = self.real.groups
        self.seq = list(sp.parse(pattern, flags))

    def _at(self, cs, pos, full=False):
        n = len(cs)
        r = match_seq(self.seq, 0, cs, pos, {}, self.flags,
                      lambda q, g: (q, g) if not full or q == n else None)
        return None if r is None else SymMatch(self, cs, (pos, r[0]), r[1])

    def match(self, s, pos=0, *a):
        if isinstance(s, str):
            return self.real.match(s, pos, *a)
        return self._at(chars(s), pos)

    def fullmatch(self, s, *a):
        if isinstance(s, str):
            return self.real.fullmatch(s, *a)
        return self._at(chars(s), 0, True)

    def search(self, s, pos=0, *a):
        if isinstance(s, str):
            return self.real.search(s, pos, *a)
        cs = chars(s)
        for i in range(pos, len(cs) + 1):
            m = self._at(cs, i)
            if m:
                return m
        return None

    def finditer(self, s):
        if isinstance(s, str):
            yield from self.real.finditer(s)
            return
        cs = chars(s)
        i = 0
        while i <= len(cs):
            m = self._at(cs, i)
            if m is None:
                i += 1
                continue
            yield m
            i = m.end() if m.end() > m.start() else m.end() + 1

    def findall(self, s):
        out = []
        for m in self.finditer(s):
            g = m.groups("")
            out.append(m.group() if not g else (g[0] if len(g) == 1 else g))
        return out

    def split(self, s, maxsplit=0):
        if isinstance(s, str):
            return self.real.split(s, maxsplit)
        cs = chars(s)
        out, last = [], 0
        for m in self.finditer(s):
            if maxsplit and len(out) >= maxsplit:
                break
            out.append(mkstr(cs[last:m.start()]))
            out += list(m.groups())
            last = m.end()
        out.append(mkstr(cs[last:]))
        return out

    def sub(self, repl, s, count=0):
        if isinstance(s, str) and isinstance(repl, str):
            return self.real.sub(repl, s, count)
        cs = chars(s)
        out, last, n = "", 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            n += 1
            out = concat(out, mkstr(cs[last:m.start()]))
            if callable(repl):
                r = repl(m)
            elif isinstance(repl, str) and "\\" in repl:
                r = ""
                pos = 0
                for b in _re.finditer(r"\\(?:(\d)|g<(\w+)>|(.))", repl):
                    r = concat(r, repl[pos:b.start()])
                    pos = b.end()
                    if b.group(1):
                        r = concat(r, m._one(int(b.group(1)), ""))
                    elif b.group(2):
                        g = b.group(2)
                        r = concat(r, m._one(int(g) if g.isdigit() else g, ""))
                    else:
                        r = concat(r, {"n": "\n", "t": "\t", "r": "\r"}.get(b.group(3), b.group(3)))
                r = concat(r, repl[pos:])
            else:
                r = repl
            out = concat(out, r)
            last = m.end()
        return concat(out, mkstr(cs[last:]))


class ReModule:
    """Stand-in for the `re` module."""
    def __init__(self):
        for n in ("I", "IGNORECASE", "M", "MULTILINE", "S", "DOTALL", "X", "VERBOSE", "A", "ASCII", "U",
                  "error", "escape"):
            setattr(self, n, getattr(_re, n))
        self.Pattern, self.Match = SymPattern, SymMatch

    def compile(self, p, flags=0): return SymPattern(p, flags)
    def match(self, p, s, flags=0): return SymPattern(p, flags).match(s)
    def fullmatch(self, p, s, flags=0): return SymPattern(p, flags).fullmatch(s)
    def search(self, p, s, flags=0): return SymPattern(p, flags).search(s)
    def finditer(self, p, s, flags=0): return SymPattern(p, flags).finditer(s)
    def findall(self, p, s, flags=0): return SymPattern(p, flags).findall(s)
    def split(self, p, s, maxsplit=0, flags=0): return SymPattern(p, flags).split(s, maxsplit)
    def sub(self, p, r, s, count=0, flags=0): return SymPattern(p, flags).sub(r, s, count)
