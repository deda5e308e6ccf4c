"""Hash-consed abstract values used by the dataflow engine.

A value is an N node; two nodes are equal iff they are the same object.  Nodes are *abstract*:
besides constants and constructor applications they include symbols for unknown inputs, linear
forms over symbols, uninterpreted applications, and loop-variant symbols (mu)."""

INF = 1 << 200


class N:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return pretty(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_all = []


def mk(op, *a):
    key = (op,) + tuple([("#", x.id) if type(x) is N else x for x in a])
    n = _tab.get(key)
    if n is None:
        n = N()
        n.op = op
        n.a = a
        n.id = len(_all)
        _all.append(n)
        _tab[key] = n
    return n


# ---------------------------------------------------------------- integers: linear forms
def I(v):
    return mk("i", int(v))


def is_int(n):
    return n.op == "i"


def lin_parts(n):
    """-> (const, {atom: coef})"""
    if n.op == "i":
        return n.a[0], {}
    if n.op == "lin":
        return n.a[0], dict(zip(n.a[1::2], n.a[2::2]))
    return 0, {n: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    args = []
    for k in sorted(d, key=lambda x: x.id):
        args += [k, d[k]]
    return mk("lin", c, *args)


def add(a, b):
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) + v
    return mk_lin(c1 + c2, d1)


def neg(a):
    c, d = lin_parts(a)
    return mk_lin(-c, {k: -v for k, v in d.items()})


def sub(a, b):
    return add(a, neg(b))


def scale(a, k):
    c, d = lin_parts(a)
    return mk_lin(c * k, {x: v * k for x, v in d.items()})


# ---------------------------------------------------------------- interval sets
class ISet:
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = tuple(r)

    def __eq__(self, o):
        return type(o) is ISet and self.r == o.r

    def __hash__(self):
        return hash(self.r)

    def __repr__(self):
        def e(x):
            return "-inf" if x <= -INF else "+inf" if x >= INF else str(x)
        return "{" + ",".join(e(a) if a == b else "%s..%s" % (e(a), e(b)) for a, b in self.r) + "}"

    def empty(self):
        return not self.r

    def inter(self, o):
        out = []
        for a, b in self.r:
            for c, d in o.r:
                lo, hi = max(a, c), min(b, d)
                if lo <= hi:
                    out.append((lo, hi))
        return norm(out)

    def comp(self):
        out = []
        cur = -INF
        for a, b in self.r:
            if cur <= a - 1:
                out.append((cur, a - 1))
            cur = b + 1
        if cur <= INF:
            out.append((cur, INF))
        return norm(out)

    def union(self, o):
        return norm(list(self.r) + list(o.r))

    def shift(self, k):
        return norm([((a + k) if abs(a) < INF else a, (b + k) if abs(b) < INF else b) for a, b in self.r])

    def negate(self):
        return norm([(-b, -a) for a, b in self.r])

    def subset(self, o):
        return self.inter(o) == self

    def lo(self):
        return self.r[0][0]

    def hi(self):
        return self.r[-1][1]

    def single(self):
        return self.r[0][0] if len(self.r) == 1 and self.r[0][0] == self.r[0][1] else None

    def size(self):
        return sum(b - a + 1 for a, b in self.r)

    def __contains__(self, v):
        return any(a <= v <= b for a, b in self.r)


def norm(rs):
    rs = sorted((max(a, -INF), min(b, INF)) for a, b in rs if a <= b)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return ISet(out)


FULL = ISet([(-INF, INF)])


def iv(a, b):
    return ISet([(a, b)]) if a <= b else ISet([])


# ---------------------------------------------------------------- strings and sequences
def S(*parts):
    """String value: concatenation of literal text and N parts (each N is a string-valued unknown)."""
    out = []
    for p in parts:
        if type(p) is N and p.op == "S":
            for q in p.a:
                if type(q) is str and out and type(out[-1]) is str:
                    out[-1] += q
                else:
                    out.append(q)
        elif type(p) is str:
            if not p:
                continue
            if out and type(out[-1]) is str:
                out[-1] += p
            else:
                out.append(p)
        else:
            out.append(p)
    return mk("S", *out)


def lit(n):
    """literal text of a string value, or None"""
    if n.op != "S":
        return None
    if not n.a:
        return ""
    if len(n.a) == 1 and type(n.a[0]) is str:
        return n.a[0]
    return None


def E(v):
    return mk("e", v)


def Q(t):
    return mk("q", t)


def seq(*parts):
    out = []
    for p in parts:
        if p.op == "seq":
            out.extend(p.a)
        elif p.op == "rep":
            if p.a[1].op == "i" and 0 <= p.a[1].a[0] <= 64:
                out.extend([E(p.a[0])] * p.a[1].a[0])
            else:
                out.append(p)
        elif p.op == "q" and p.a[0].op == "seqof":
            out.extend(p.a[0].a[0].a)
        else:
            out.append(p)
    return mk("seq", *out)


_seqlen = {}


def seq_len(s):
    r = _seqlen.get(s)
    if r is None:
        r = _seqlen[s] = seq_len0(s)
    return r


def seq_len0(s):
    n = sum([p.op == "e" for p in s.a])
    r = I(n)
    for p in s.a if n < len(s.a) else ():
        if p.op == "e":
            pass
        elif p.op == "rep":
            r = add(r, p.a[1])
        else:
            r = add(r, qlen(p.a[0]))
    return r


def qlen(t):
    while t.op == "set":
        t = t.a[0]
        if t.op == "seq":
            return seq_len(t)
    return mk("len", t)


def seq_concrete(s):
    return [p.a[0] for p in s.a] if all(p.op == "e" for p in s.a) else None


UNIT = mk("tup")
TRUE = I(1)
FALSE = I(0)


# ---------------------------------------------------------------- pretty printer
def pretty(n, d=0):
    if type(n) is not N:
        return repr(n) if type(n) is str else str(n)
    if d > 14:
        return "…"
    o, a = n.op, n.a
    p = lambda x: pretty(x, d + 1)
    if o == "i":
        return str(a[0])
    if o == "lin":
        s = str(a[0]) if a[0] else ""
        for k, c in zip(a[1::2], a[2::2]):
            s += ("+" if c > 0 and s else "") + ("-" if c == -1 else "" if c == 1 else "%d*" % c) + p(k)
        return "(" + s + ")"
    if o == "sym":
        return str(a[0])
    if o == "S":
        return "S[" + "".join(("'%s'" % x if type(x) is str else "<%s>" % p(x)) for x in a) + "]"
    if o == "seq":
        return "[" + ", ".join(p(x) for x in a) + "]"
    if o == "e":
        return p(a[0])
    if o == "q":
        return ".." + p(a[0])
    if o == "adt":
        import mir
        t = mir.PROG.T[a[0]] if mir.PROG else None
        nm = t["name"].split("::")[-1] + "::" + t["variants"][a[1]]["name"] if t else str(a[:2])
        return nm + ("(" + ", ".join(p(x) for x in a[2:]) + ")" if len(a) > 2 else "")
    if o == "fld":
        import mir
        return "%s.%s%s" % (p(a[0]), ("%s#" % a[1]) if a[1] is not None else "", a[2])
    if o == "in":
        return "%s in %r" % (p(a[0]), a[1])
    if o == "*":
        return "*" + p(a[0])
    if o == "app":
        return "%s(%s)" % (str(a[0]).split("::")[-1], ", ".join(p(x) for x in a[1:]))
    if o == "disp":
        return "{%s%s}" % (p(a[0]), "" if a[1] == "" else ":" + str(a[1]))
    return "%s(%s)" % (o, ", ".join(p(x) if type(x) is N else str(x) for x in a))
