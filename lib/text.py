"""Abstract strings at character granularity: texts of literal characters and unknown ASCII bytes (`byte` pieces).

Models of regular expressions (leftmost-first matching of the pattern's syntax tree over the cells, splitting paths on the class of an
unknown byte), grapheme iteration, slicing, searching, case mapping and number parsing over such texts."""
import re
import re._parser as rp

import models as M
from engine import Imprecise, neg_cond
from terms import *

ASCII = iv(0, 127)
UPPER, LOWER, DIGIT = iv(65, 90), iv(97, 122), iv(48, 57)
SPACE_CP = [(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]
MAXCP = 0x10FFFF


def cells(s):
    """the characters of a string: int code points or byte terms; None when it has other pieces"""
    out = []
    for p in s.a:
        if type(p) is str:
            out += [ord(c) for c in p]
        elif p.op == "byte":
            out.append(p.a[0])
        elif p.op == "chr":
            out.append(p.a[0])
        else:
            return None
    return out


def text(cs):
    return S(*[chr(c) if type(c) is int else mk("byte", c) for c in cs])


def width(c):
    return 1 if type(c) is not int else len(chr(c).encode())


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Decider:
    """answers questions about cells under path facts; unanswerable ones split the path"""

    def __init__(self, E, st):
        self.E, self.st = E, st

    def isin(self, c, iset):
        if type(c) is int:
            return c in iset
        if c.op == "i":
            return c.a[0] in iset
        return self.true(self.E.cond_in(c, iset.inter(ASCII)))

    def eq(self, c, ch):
        return self.isin(c, iv(ord(ch), ord(ch)) if type(ch) is str else iv(ch, ch))

    def true(self, cond):
        d = self.E.decide(self.st, cond)
        if d is None:
            raise NeedFork(cond)
        return d


def cases(E, st, fn, limit=4000):
    """[(state, fn(decider))] over a partition of st fine enough for fn to be decided"""
    work, out = [st], []
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > limit:
            raise Imprecise("too many cases of a text")
        try:
            out.append((s, fn(Decider(E, s))))
        except NeedFork as e:
            fs = E.fork(s, e.cond)
            if len(fs) == 1 and fs[0][1] is s:
                raise Imprecise("undecidable condition " + pretty(e.cond)[:100])
            work.extend(x for _, x in fs)
    return out


# ---------------------------------------------------------------- regular expressions
CAT = {rp.CATEGORY_DIGIT: [(48, 57)], rp.CATEGORY_SPACE: SPACE_CP, rp.CATEGORY_WORD: [(48, 57), (65, 90), (95, 95), (97, 122)]}
NCAT = {rp.CATEGORY_NOT_DIGIT: rp.CATEGORY_DIGIT, rp.CATEGORY_NOT_SPACE: rp.CATEGORY_SPACE, rp.CATEGORY_NOT_WORD: rp.CATEGORY_WORD}


def compl(r):
    return norm(r).comp().inter(iv(0, MAXCP))


def charset(items, icase):
    rs, negate = [], False
    for op, av in items:
        if op is rp.NEGATE:
            negate = True
        elif op is rp.LITERAL:
            rs.append((av, av))
        elif op is rp.RANGE:
            rs.append(tuple(av))
        elif op is rp.CATEGORY:
            rs += CAT[av] if av in CAT else compl(CAT[NCAT[av]]).r
        else:
            raise Imprecise("regular expression class %s" % op)
    if icase:
        for a, b in list(rs):
            for lo, hi, d in ((65, 90, 32), (97, 122, -32)):
                x, y = max(a, lo), min(b, hi)
                if x <= y:
                    rs.append((x + d, y + d))
    s = norm(rs)
    return s.comp().inter(iv(0, MAXCP)) if negate else s


class Regex:
    _cache = {}

    @classmethod
    def get(cls, pat):
        r = cls._cache.get(pat)
        if r is None:
            r = cls._cache[pat] = cls(pat)
        return r

    def __init__(self, pat):
        # (?x) and class set operations of the regex crate are not Python syntax
        if "&&" in pat or "--" in pat or "~~" in pat or "[:" in pat:
            raise Imprecise("regular expression " + pat)
        pat = re.sub(r"\(\?P?<(\w+)>", r"(?P<\1>", pat).replace(r"\z", r"\Z")
        p = rp.parse(pat)
        self.icase = bool(p.state.flags & re.I)
        self.dotall = bool(p.state.flags & re.S)
        self.multi = bool(p.state.flags & re.M)
        self.groups = p.state.groups
        self.names = dict(p.state.groupdict)
        self.tree = list(p)

    def search(self, cs, start, D):
        for b in range(start, len(cs) + 1):
            g = {}
            e = self.match(self.tree, cs, b, D, g, lambda p, g: (p, g))
            if e is not None:
                p, g = e
                return [(b, p)] + [g.get(k) for k in range(1, self.groups)]
        return None

    def match(self, items, cs, p, D, g, k):
        """backtracking match in priority order; k is the continuation"""
        if not items:
            return k(p, g)
        (op, av), rest = items[0], items[1:]
        nx = lambda q, h: self.match(rest, cs, q, D, h, k)
        if op is rp.LITERAL or op is rp.NOT_LITERAL or op is rp.ANY or op is rp.IN:
            if p >= len(cs):
                return None
            if op is rp.LITERAL:
                s = charset([(rp.LITERAL, av)], self.icase)
            elif op is rp.NOT_LITERAL:
                s = charset([(rp.NEGATE, None), (rp.LITERAL, av)], self.icase)
            elif op is rp.ANY:
                s = iv(0, MAXCP) if self.dotall else iv(10, 10).comp().inter(iv(0, MAXCP))
            else:
                s = charset(av, self.icase)
            return nx(p + 1, g) if D.isin(cs[p], s) else None
        if op is rp.BRANCH:
            for alt in av[1]:
                r = self.match(list(alt), cs, p, D, g, nx)
                if r is not None:
                    return r
            return None
        if op is rp.SUBPATTERN:
            n, addf, delf, sub_ = av
            if addf or delf:
                raise Imprecise("regular expression flags in a group")

            def close(q, h):
                if n is not None:
                    h = dict(h)
                    h[n] = (p, q)
                return nx(q, h)
            return self.match(list(sub_), cs, p, D, g, close)
        if op is rp.MAX_REPEAT or op is rp.MIN_REPEAT:
            lo, hi, sub_ = av
            sub_ = list(sub_)
            greedy = op is rp.MAX_REPEAT

            def step(n, q, h, last):
                def more():
                    if hi is not rp.MAXREPEAT and n >= hi:
                        return None
                    return self.match(sub_, cs, q, D, h, lambda q2, h2: None if q2 == q and n >= lo else step(n + 1, q2, h2, q))
                if n < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else nx(q, h)
                r = nx(q, h)
                return r if r is not None else more()
            return step(0, p, g, None)
        if op is rp.AT:
            if av is rp.AT_BEGINNING_STRING or av is rp.AT_BEGINNING and not self.multi:
                return nx(p, g) if p == 0 else None
            if av is rp.AT_END_STRING or av is rp.AT_END and not self.multi:
                return nx(p, g) if p == len(cs) else None
            if av is rp.AT_BEGINNING:
                return nx(p, g) if p == 0 or D.eq(cs[p - 1], 10) else None
            if av is rp.AT_END:
                return nx(p, g) if p == len(cs) or D.eq(cs[p], 10) else None
        raise Imprecise("regular expression operator %s" % op)


def offsets(cs):
    o = [0]
    for c in cs:
        o.append(o[-1] + width(c))
    return o


# ---------------------------------------------------------------- models
def S_of(E, st, v):
    return M.S_of(E, st, v)


def cells_of(E, st, v):
    s = S_of(E, st, v)
    return None if s is None else cells(s)


def regex_of(E, st, v):
    r = M.dv(E, st, v)
    return r.a[0] if r.op == "regex" else None


def m_regex_new(E, st, f, vals, at, dt, fr, uid):
    l = S_of(E, st, vals[0])
    l = None if l is None else lit(l)
    if l is None:
        return None
    Regex.get(l)
    return [(st, M.ok(E, dt, mk("regex", l)))]


def spans(E, st, pat, t, start):
    """[(state, spans or None)] of the first match at or after cell `start`"""
    cs = cells(t)
    if cs is None:
        raise Imprecise("regular expression on " + pretty(t)[:100])
    return cases(E, st, lambda D: Regex.get(pat).search(cs, start, D))


def match_val(t, sp):
    return mk("rmatch", t, sp[0], sp[1])


def m_regex_op(E, st, f, vals, at, dt, fr, uid):
    pat = regex_of(E, st, vals[0])
    t = S_of(E, st, vals[1])
    if pat is None or t is None or cells(t) is None:
        return None
    op = f.sname.split("::")[-1]
    if op in ("captures_iter", "find_iter"):
        return [(st, mk("reiter", op, pat, t, 0))]
    out = []
    for s, sp in spans(E, st, pat, t, 0):
        if op == "is_match":
            out.append((s, I(int(sp is not None))))
        elif sp is None:
            out.append((s, M.none(E, dt)))
        elif op == "find":
            out.append((s, M.some(E, dt, match_val(t, sp[0]))))
        elif op == "captures":
            out.append((s, M.some(E, dt, mk("caps", pat, t, tuple(sp)))))
        elif op == "shortest_match":
            return None
    return out


def m_reiter_next(E, st, f, vals, at, dt, fr, uid):
    it = M.dv(E, st, vals[0])
    if it.op != "reiter":
        return None
    op, pat, t, pos = it.a
    out = []
    E.conc = True
    for s, sp in spans(E, st, pat, t, pos):
        s = s.copy()
        if sp is None:
            M.setref(E, s, vals[0], mk("reiter", op, pat, t, len(cells(t)) + 1))
            out.append((s, M.none(E, dt)))
        else:
            a, b = sp[0]
            M.setref(E, s, vals[0], mk("reiter", op, pat, t, b if b > a else b + 1))
            out.append((s, M.some(E, dt, mk("caps", pat, t, tuple(sp)) if op == "captures_iter" else match_val(t, sp[0]))))
    return out


def part(t, a, b):
    return text(cells(t)[a:b])


def m_caps(E, st, f, vals, at, dt, fr, uid):
    c = M.dv(E, st, vals[0])
    if c.op != "caps":
        return None
    op = f.sname.split("::")[-1]
    pat, t, sp = c.a
    if op == "len":
        return [(st, I(len(sp)))]
    k = M.dv(E, st, vals[1])
    if k.op == "i":
        k = k.a[0]
    else:
        l = lit(k) if k.op == "S" else None
        k = Regex.get(pat).names.get(l) if l is not None else None
        if k is None:
            return None
    g = sp[k] if k < len(sp) else None
    if op == "index":
        if g is None:
            return []
        return [(st, part(t, *g))]
    return [(st, M.none(E, dt) if g is None else M.some(E, dt, match_val(t, g)))]


def m_match(E, st, f, vals, at, dt, fr, uid):
    c = M.dv(E, st, vals[0])
    if c.op != "rmatch":
        return None
    t, a, b = c.a
    o = offsets(cells(t))
    op = f.sname.split("::")[-1]
    if op == "as_str":
        return [(st, part(t, a, b))]
    if op in ("start", "end", "len"):
        return [(st, I({"start": o[a], "end": o[b], "len": o[b] - o[a]}[op]))]
    return None


# graphemes: CR LF is one, a combining mark belongs to the character before it, everything else stands alone
def extends(c):
    import unicodedata
    return type(c) is int and (unicodedata.combining(chr(c)) != 0 or c in (0x200D, 0xFE0F) or unicodedata.category(chr(c)) in ("Mn", "Me", "Mc"))


def grapheme_end(cs, p, D):
    """the end of the grapheme cluster starting at cell p"""
    ctl = norm([(0, 31), (127, 127)])
    if D.eq(cs[p], 13) and p + 1 < len(cs) and D.eq(cs[p + 1], 10):
        return p + 2
    if p + 1 < len(cs) and extends(cs[p + 1]) and D.isin(cs[p], ctl):
        return p + 1
    q = p + 1
    while q < len(cs) and extends(cs[q]):
        q += 1
    return q


def m_graphemes(E, st, f, vals, at, dt, fr, uid):
    t = S_of(E, st, vals[0])
    if t is None or cells(t) is None:
        return None
    return [(st, mk("graphemes", t, 0))]


def m_grapheme_next(E, st, f, vals, at, dt, fr, uid):
    it = M.dv(E, st, vals[0])
    if it.op != "graphemes":
        return None
    t, p = it.a
    cs = cells(t)
    E.conc = True
    if p >= len(cs):
        return [(st, M.none(E, dt))]
    out = []
    for s, q in cases(E, st, lambda D: grapheme_end(cs, p, D)):
        s = s.copy()
        M.setref(E, s, vals[0], mk("graphemes", t, q))
        out.append((s, M.some(E, dt, text(cs[p:q]))))
    return out


def m_index(E, st, f, vals, at, dt, fr, uid):
    """text[a..b] at known byte offsets"""
    s = S_of(E, st, vals[0])
    cs = cells(s) if s is not None else None
    if cs is None:
        return M.m_strindex(E, st, f, vals, at, dt, fr, uid)
    r = M.dv(E, st, vals[1])
    nm = E.T[r.a[0]]["name"].split("::")[-1] if r.op == "adt" else None
    o = offsets(cs)
    lo, hi = I(0), I(o[-1])
    if nm in ("Range", "RangeInclusive"):
        lo, hi = r.a[2], r.a[3]
        if nm == "RangeInclusive":
            hi = add(hi, I(1))
    elif nm == "RangeFrom":
        lo = r.a[2]
    elif nm == "RangeTo":
        hi = r.a[2]
    elif nm == "RangeToInclusive":
        hi = add(r.a[2], I(1))
    elif nm != "RangeFull":
        return None
    if lo.op != "i" or hi.op != "i":
        return None
    lo, hi = lo.a[0], hi.a[0]
    get = f.sname.endswith("::get")
    if lo > hi or lo not in o or hi not in o:
        if get:
            return [(st, M.none(E, dt))]
        E.panic(st, "slice %d..%d of a text of %d bytes" % (lo, hi, o[-1]), fr, None)
        return []
    v = text(cs[o.index(lo):o.index(hi)])
    return [(st, M.some(E, dt, v) if get else v)]


def pattern_sets(E, st, v):
    """a search pattern: list of cells, or None"""
    if v.op == "i":
        return [v.a[0]]
    v = M.dv(E, st, v)
    return cells(v) if v.op == "S" else None


def cell_eq(D, a, b):
    if type(a) is int:
        return D.eq(b, a)
    if type(b) is int:
        return D.eq(a, b)
    return D.true(D.E.cond_in(sub(a, b), iv(0, 0)))


def occurs(D, cs, p, k):
    return k + len(p) <= len(cs) and all(cell_eq(D, cs[k + i], p[i]) for i in range(len(p)))


def m_search(E, st, f, vals, at, dt, fr, uid):
    cs, p = cells_of(E, st, vals[0]), pattern_sets(E, st, vals[1])
    op = f.sname.split("::")[-1]
    if cs is None or p is None:
        return M.m_starts(E, st, f, vals, at, dt, fr, uid) if op in ("starts_with", "ends_with", "contains") else None
    o = offsets(cs)
    last = len(cs) - len(p)

    def fn(D):
        if op == "starts_with":
            return occurs(D, cs, p, 0)
        if op == "ends_with":
            return last >= 0 and occurs(D, cs, p, last)
        order = range(0, last + 1) if op in ("contains", "find") else range(last, -1, -1)
        for k in order:
            if occurs(D, cs, p, k):
                return k
        return None
    out = []
    for s, r in cases(E, st, fn):
        if op in ("starts_with", "ends_with"):
            out.append((s, I(int(r))))
        elif op == "contains":
            out.append((s, I(int(r is not None))))
        else:
            out.append((s, M.none(E, dt) if r is None else M.some(E, dt, I(o[r]))))
    return out


def m_strip(E, st, f, vals, at, dt, fr, uid):
    cs, p = cells_of(E, st, vals[0]), pattern_sets(E, st, vals[1])
    if cs is None or p is None:
        return None
    pre = f.sname.endswith("prefix")
    k = 0 if pre else len(cs) - len(p)
    out = []
    for s, r in cases(E, st, lambda D: k >= 0 and occurs(D, cs, p, k)):
        out.append((s, M.some(E, dt, text(cs[len(p):] if pre else cs[:k])) if r else M.none(E, dt)))
    return out


def m_case(E, st, f, vals, at, dt, fr, uid):
    cs = cells_of(E, st, vals[0])
    if cs is None:
        return M.m_smap(E, st, f, vals, at, dt, fr, uid)
    nm = f.sname.split("::")[-1]
    low = "lower" in nm
    if "trim" in nm:
        sp = norm(SPACE_CP)

        def trim(D):
            a, b = 0, len(cs)
            while a < b and nm != "trim_end" and D.isin(cs[a], sp):
                a += 1
            while a < b and nm != "trim_start" and D.isin(cs[b - 1], sp):
                b -= 1
            return text(cs[a:b])
        return cases(E, st, trim)

    def fn(D):
        out = []
        for c in cs:
            if type(c) is int:
                x = chr(c)
                out += [ord(y) for y in (x if "ascii" in nm and c > 127 else x.lower() if low else x.upper())]
            elif D.isin(c, UPPER if low else LOWER):
                out.append(add(c, I(32 if low else -32)))
            else:
                out.append(c)
        return text(out)
    return cases(E, st, fn)


def m_replace(E, st, f, vals, at, dt, fr, uid):
    cs, p, b = cells_of(E, st, vals[0]), pattern_sets(E, st, vals[1]), cells_of(E, st, vals[2])
    if cs is None or not p or b is None:
        return M.m_replace(E, st, f, vals, at, dt, fr, uid)

    def fn(D):
        out, k = [], 0
        while k < len(cs):
            if occurs(D, cs, p, k):
                out += b
                k += len(p)
            else:
                out.append(cs[k])
                k += 1
        return text(out)
    return cases(E, st, fn)


def digit(D, c, radix):
    """the value of a digit as a term, or None"""
    for lo, hi, base in ((48, 57, 48), (97, 122, 87), (65, 90, 55)):
        h = min(hi, base + radix - 1)
        if h >= lo and D.isin(c, iv(lo, h)):
            return add(I(c) if type(c) is int else c, I(-base))
    return None


def m_radix(E, st, f, vals, at, dt, fr, uid):
    cs = cells_of(E, st, vals[0])
    if cs is None:
        return None
    if f.sname.endswith("from_str_radix"):
        if vals[1].op != "i":
            return None
        radix = vals[1].a[0]
    else:
        radix = 10
    okv = E.P.variant(dt, "Ok")
    t = E.T[dt]["variants"][okv]["fields"][0][1]
    if E.intty(t) is None:
        return None
    full = E.trange(t)

    def fn(D):
        c = list(cs)
        sign = 1
        if len(c) > 1 and D.isin(c[0], norm([(43, 43), (45, 45)])):
            if D.eq(c[0], 45):
                if full.lo() >= 0:
                    return None
                sign = -1
            c = c[1:]
        if not c:
            return None
        v = I(0)
        for x in c:
            d = digit(D, x, radix)
            if d is None:
                return None
            v = add(scale(v, radix), scale(d, sign))
            # a prefix out of range is an overflow (further digits only increase the magnitude)
            if not D.E.rng(D.st, v).subset(full) and not D.true(D.E.cond_in(v, full)):
                return None
        return v
    out = []
    for s, v in cases(E, st, fn):
        if v is None:
            out.append((s, M.err(E, dt, mk("sym", "ParseIntError"))))
        else:
            out.append((s, M.ok(E, dt, v)))
    return out


def m_chars(E, st, f, vals, at, dt, fr, uid):
    cs = cells_of(E, st, vals[0])
    if cs is None:
        return M.m_chars(E, st, f, vals, at, dt, fr, uid)
    if f.sname.endswith("char_indices"):
        o = offsets(cs)
        return [(st, mk("it", "val", seq(*[mk("e", mk("tup", I(o[k]), I(c) if type(c) is int else c)) for k, c in enumerate(cs)]), I(0)))]
    return [(st, mk("it", "val", seq(*[mk("e", I(c) if type(c) is int else c) for c in cs]), I(0)))]


def m_utf8(E, st, f, vals, at, dt, fr, uid):
    v = M.dv(E, st, vals[0])
    if v.op != "seq":
        return None
    c = seq_concrete(v)
    if c is None:
        return None
    by = bytearray()
    out = []

    def flush():
        try:
            out.extend(ord(x) for x in by.decode())
        except UnicodeDecodeError:
            return False
        by.clear()
        return True
    good = True
    for x in c:
        if x.op == "i":
            by.append(x.a[0])
        else:
            good = good and flush()
            if not E.rng(st, x).subset(ASCII):
                return None
            out.append(x)
    good = good and flush()
    if "lossy" in f.sname:
        return [(st, text(out))] if good else None
    return [(st, M.ok(E, dt, text(out)) if good else M.err(E, dt, mk("sym", "FromUtf8Error")))]


def m_lazy(E, st, f, vals, at, dt, fr, uid):
    """a lazily initialised static: its initialiser is a pure function, evaluated once"""
    memo = E.__dict__.setdefault("lazy_memo", {})
    k = vals[1]
    r = memo.get(k)
    if r is None:
        n = len(E.panics)
        outs = E.call_value(st, vals[1], [], E.uid("lazy", uid), fr, None)
        if len(outs) != 1 or len(E.panics) != n:
            return [(s, M.ref(v)) for s, v in outs]
        r = memo[k] = E.snapshot(*outs[0])
    return [(st, M.ref(r))]


def m_eq(E, st, f, vals, at, dt, fr, uid):
    a, b = cells_of(E, st, vals[0]), cells_of(E, st, vals[1])
    if a is None or b is None:
        return M.m_streq(E, st, f, vals, at, dt, fr, uid)
    ne = f.sname.endswith("ne")

    def fn(D):
        return I(int((len(a) == len(b) and all(cell_eq(D, x, y) for x, y in zip(a, b))) != ne))
    return cases(E, st, fn)


STREQ = (r"^core::str::traits::(eq|ne)$", r"^std::string::(String::)?(eq|ne)$", r"^<std::string::String as std::cmp::PartialEq>::(eq|ne)$", r"^<&?str as std::cmp::PartialEq>::(eq|ne)$")


def text_models():
    return {
        **{k: m_eq for k in STREQ},
        r"regex::Regex::new$": m_regex_new,
        r"regex::Regex::(captures_iter|find_iter|captures|find|is_match)$": m_regex_op,
        r"<(regex::)?(regex::string::)?(CaptureMatches|Matches) as std::iter::Iterator>::next$": m_reiter_next,
        r"regex::.*(CaptureMatches|Matches) as std::iter::Iterator>::next$": m_reiter_next,
        r"Captures as std::ops::Index>::index$": m_caps,
        r"regex::.*Captures::(get|name|len)$": m_caps,
        r"regex::.*Match::(as_str|start|end|len)$": m_match,
        r"UnicodeSegmentation>::graphemes$": m_graphemes,
        r"Graphemes as std::iter::Iterator>::next$": m_grapheme_next,
        r"^core::str::traits::(index|get)$": m_index, r"^core::str::(index|get)$": m_index,
        r"^core::str::(starts_with|ends_with|contains|find|rfind)$": m_search,
        r"^core::str::strip_(prefix|suffix)$": m_strip,
        r"^std::str::(to_lowercase|to_uppercase)$": m_case, r"^core::str::to_ascii_(lower|upper)case$": m_case, r"^std::str::to_ascii_(lower|upper)case$": m_case,
        r"^core::str::(trim|trim_end|trim_start)$": m_case,
        r"^std::str::replace$": m_replace,
        r"^core::num::from_str_radix$": m_radix, r"^core::str::parse$": m_radix,
        r"^core::str::(chars|char_indices)$": m_chars,
        r"^std::string::String::from_utf8(_lossy)?$": m_utf8, r"^core::str::(converts::)?from_utf8$": m_utf8,
        r"lazy_static::lazy::Lazy::get$": m_lazy,
    }
