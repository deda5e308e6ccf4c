"""Path-partitioned abstract interpreter over MIR (no execution, no solver).

States are abstract stores over value-numbered terms (terms.py) plus a conjunction of simple facts
(interval sets over linear forms, enum-variant sets, string-equality sets, boolean atoms).  Loops
whose trip count is determined by a literal sequence are unrolled, all other loops are widened by
anti-unification to a fixpoint and summarised.  Functions are inlined bottom-up unless recursive,
modelled, or declared opaque by the check that asks."""
import re
import struct

import mir
from terms import *

sys_limit = 60000


class Imprecise(Exception):
    pass


_typeof = {}


def tyof(t):
    return _typeof.get(t)


class St:
    __slots__ = ("mem", "facts", "eff", "apx")

    def __init__(self, mem=None, facts=None, eff=(), apx=frozenset()):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.eff = eff
        self.apx = apx      # what was approximated on the way here (see approximate)

    def copy(self):
        return St(dict(self.mem), dict(self.facts), self.eff, self.apx)


REVIEWED = set()    # approximations that occur on the reviewed tree and are accounted for by the rules
SEEN = set()        # all approximations made in this process


def approximate(st, what):
    SEEN.add(what)
    if what not in REVIEWED and what not in st.apx:
        st.apx = st.apx | {what}


NOT = {}


def signed_span(rs):
    """two's complement span of a bitwise combination of values in the given ranges"""
    if any(x.empty() or x.hi() >= INF or x.lo() <= -INF for x in rs):
        return FULL
    n = max(max(x.hi(), -x.lo() - 1, 0).bit_length() for x in rs)
    return iv(-(1 << n), (1 << n) - 1)


def neg_cond(c):
    if c.op == "i":
        return I(1 - c.a[0])
    if c.op == "in":
        return mk("in", c.a[0], c.a[1].comp())
    if c.op == "not":
        return c.a[0]
    return mk("not", c)


def wrap(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


OPS2 = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def evalc(t, env):
    """constant value of an integer term under an assignment of its atoms, or None"""
    if t in env:
        return env[t]
    o, a = t.op, t.a
    if o == "i":
        return a[0]
    if o == "lin":
        r = a[0]
        for k, c in zip(a[1::2], a[2::2]):
            v = evalc(k, env)
            if v is None:
                return None
            r += c * v
        return r
    if o in ("and", "or", "xor"):
        x, y = evalc(a[0], env), evalc(a[1], env)
        return None if x is None or y is None else OPS2[o](x, y)
    if o in ("shl", "shr"):
        x, y = evalc(a[0], env), evalc(a[1], env)
        if x is None or y is None:
            return None
        return wrap(x << y, a[2], a[3]) if o == "shl" else x >> y
    if o == "cast":
        x = evalc(a[2], env)
        return None if x is None else wrap(x, a[0], a[1])
    if o == "bnot":
        x = evalc(a[0], env)
        return None if x is None else wrap(~x, a[1], a[2])
    if o == "mul":
        x, y = evalc(a[0], env), evalc(a[1], env)
        return None if x is None or y is None else x * y
    if o in ("div", "rem"):
        x, y = evalc(a[0], env), evalc(a[1], env)
        if x is None or not y:
            return None
        return tdiv(x, y) if o == "div" else x - y * tdiv(x, y)
    if o == "b2i":
        return evalb(a[0], env)
    return None


def evalb(c, env):
    if c.op == "i":
        return c.a[0]
    if c.op == "in":
        v = evalc(c.a[0], env)
        return None if v is None else int(v in c.a[1])
    if c.op == "not":
        v = evalb(c.a[0], env)
        return None if v is None else 1 - v
    return env.get(c)


INTOPS = ("lin", "and", "or", "xor", "shl", "shr", "cast", "bnot", "mul", "div", "rem", "b2i", "in", "not")


def support(t, out=None):
    if out is None:
        out = set()
    if t.op == "i":
        return out
    if t.op in INTOPS:
        for x in t.a:
            if type(x) is N:
                support(x, out)
    else:
        out.add(t)
    return out


class LoopInfo:
    def __init__(self):
        self.rows = []      # [(St at back edge)]
        self.exits = []     # [(block, St)]
        self.head = None    # widened head state
        self.init = None    # entry state
        self.uid = None
        self.fn = None
        self.headbb = None


# ---------------------------------------------------------------- floating-point constants (folded as IEEE 754 prescribes)
FARITH = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mul": lambda x, y: x * y, "Div": lambda x, y: x / y if y else None}


def fvalue(n):
    w, b = n.a
    return struct.unpack("<d" if w == 64 else "<f", b.to_bytes(w // 8, "little"))[0]


def fconst(w, fn, *args):
    """the constant fn(args), None if it cannot be folded"""
    x = fn(*args)
    if x is None or w not in (32, 64):
        return None
    try:
        return mk("f", w, int.from_bytes(struct.pack("<d" if w == 64 else "<f", x), "little"))
    except OverflowError:
        return None


def seq_part(v, i):
    """(part, offset in it, its length) of the element with the known index i, None when it is not known which part that is"""
    if i < 0:
        return None
    if i < len(v.a) and v.a[i].op == "e" and all(p.op == "e" for p in v.a[:i]):
        return i, 0, 1
    pos = 0
    for j, p in enumerate(v.a):
        if p.op == "e":
            n = 1
        elif p.op == "rep" and p.a[1].op == "i":
            n = p.a[1].a[0]
        else:
            return None
        if i < pos + n:
            return j, i - pos, n
        pos += n
    return None


class Engine:
    def __init__(self, prog, opaque=(), models=None, maxstates=400000, force_inline=(), track=()):
        self.track = [re.compile(x) for x in track]
        self.P = prog
        self.T = prog.T
        self.opaque = [re.compile(x) for x in opaque]
        self.accepted = []      # opaque calls a check leaves out of its analysis on purpose: they are no approximation for it
        self.maxrec = 3
        self.maxdepth = 60
        self.force = [re.compile(x) for x in force_inline]
        self.user_models = [(re.compile(k), v) for k, v in (models or {}).items()]
        self._umcache = {}
        self.panics = []
        self.loops = {}
        self.stack = []
        self.uids = {}
        self.used_opaque = {}
        self.left = {}          # library operations on values of unknown length, left to the library's own code
        self.analysed = {}
        self.maxstates = maxstates
        self.nstates = 0
        self.conc = False
        self.hash_order = list  # the order in which hash tables are iterated (any order is possible)
        self.hash_iterations = set()
        self.finite = False     # inputs are finite texts: unroll every loop
        self.lower = set()      # name symbols already in lower case
        self.defs = {}
        self.memo = {}
        import models as M
        self.M = M

    # ------------------------------------------------------------ symbols
    def uid(self, *k):
        v = self.uids.get(k)
        if v is None:
            v = len(self.uids) + 1
            self.uids[k] = v
        return v

    def sym(self, name, ty):
        return self.symval(mk("sym", name), ty)

    def is_str(self, ti):
        return self.T[ti]["k"] == "str"

    def symval(self, term, ti):
        """abstract value standing for an unknown of type ti named by term"""
        t = self.T[ti]
        k = t["k"]
        if k == "ref" or k == "ptr":
            of = t["of"]
            if self.T[of]["k"] == "str":
                _typeof.setdefault(term, of)
                return S(term)
            _typeof.setdefault(term, ti)
            _typeof.setdefault(mk("*", term), of)
            return mk("ref", ("P", term), ())
        _typeof.setdefault(term, ti)
        if k == "adt":
            n = t["name"]
            if n in ("std::string::String", "alloc::string::String"):
                return S(term)
            if n in ("std::vec::Vec", "alloc::vec::Vec"):
                return seq(Q(term))
            if t["box"]:
                return mk("box", self.symval(mk("*", term), t["args"][0]))
            if t["kind"] == "struct" and not t["variants"][0]["fields"]:
                return mk("adt", ti, 0)
            return term
        if k == "str":
            return S(term)
        if k in ("slice", "array"):
            if k == "array" and t["n"] is not None and t["n"] <= 16:
                return seq(*[E(self.symval(mk("idx", term, I(i)), t["of"])) for i in range(t["n"])])
            return seq(Q(term))
        if k == "tuple":
            return mk("tup", *[self.symval(mk("fld", term, None, i), x) for i, x in enumerate(t["of"])])
        if k == "fndef":
            return mk("fn", t["fn"])
        if k == "closure" and not term:
            return term
        return term

    def term_of(self, v):
        """inverse of symval: the naming term of a fully symbolic value, or the value itself"""
        if v.op == "S" and len(v.a) == 1 and type(v.a[0]) is N:
            return v.a[0]
        if v.op == "seq" and len(v.a) == 1 and v.a[0].op == "q":
            return v.a[0].a[0]
        if v.op == "ref" and v.a[0][0] == "P" and not v.a[1]:
            return v.a[0][1]
        if v.op == "box":
            t = self.term_of(v.a[0])
            if t.op == "*":
                return t.a[0]
        return v

    # ------------------------------------------------------------ ranges and facts
    def trange(self, ti):
        t = self.T[ti]
        k = t["k"]
        if k == "int":
            b = t["bits"]
            return iv(-(1 << (b - 1)), (1 << (b - 1)) - 1) if t["signed"] else iv(0, (1 << b) - 1)
        if k == "char":
            return ISet([(0, 0xD7FF), (0xE000, 0x10FFFF)])
        if k == "bool":
            return iv(0, 1)
        return FULL

    def arange(self, st, a):
        """range of an atom"""
        o = a.op
        r = FULL
        if a in _typeof:
            r = self.trange(_typeof[a])
        if o == "len":
            r = iv(0, (1 << 63) - 1)
        elif o == "cast":
            r = iv(-(1 << (a.a[0] - 1)), (1 << (a.a[0] - 1)) - 1) if a.a[1] else iv(0, (1 << a.a[0]) - 1)
        elif o == "wrap":
            r = self.trange(a.a[0])
        elif o == "b2i":
            r = iv(0, 1)
        elif o == "and":
            rs = [self.rng(st, x) for x in a.a]
            hs = [x.hi() for x in rs if not x.empty() and x.lo() >= 0]
            if hs:
                r = iv(0, min(hs))
            else:
                r = signed_span(rs)
        elif o in ("or", "xor"):
            rs = [self.rng(st, x) for x in a.a]
            if all(not x.empty() and x.lo() >= 0 and x.hi() < INF for x in rs):
                m = max(x.hi() for x in rs)
                r = iv(0, (1 << m.bit_length()) - 1)
            else:
                r = signed_span(rs)
        elif o == "shr":
            x = self.rng(st, a.a[0])
            if a.a[1].op == "i" and not x.empty() and x.hi() < INF and x.lo() > -INF:
                r = iv(x.lo() >> a.a[1].a[0], x.hi() >> a.a[1].a[0])
        elif o == "shl":
            r = iv(-(1 << (a.a[2] - 1)), (1 << (a.a[2] - 1)) - 1) if a.a[3] else iv(0, (1 << a.a[2]) - 1)
        elif o == "bnot":
            r = iv(-(1 << (a.a[1] - 1)), (1 << (a.a[1] - 1)) - 1) if a.a[2] else iv(0, (1 << a.a[1]) - 1)
        elif o == "mul":
            x, y = self.rng(st, a.a[0]), self.rng(st, a.a[1])
            if not x.empty() and not y.empty() and max(abs(x.lo()), abs(x.hi()), abs(y.lo()), abs(y.hi())) < INF:
                c = [p * q for p in (x.lo(), x.hi()) for q in (y.lo(), y.hi())]
                r = iv(max(min(c), -INF), min(max(c), INF))
        elif o == "rem":
            if a.a[1].op == "i" and a.a[1].a[0] != 0:
                m = abs(a.a[1].a[0])
                x = self.rng(st, a.a[0])
                r = iv(0 if not x.empty() and x.lo() >= 0 else 1 - m, m - 1)
        elif o == "div":
            if a.a[1].op == "i" and a.a[1].a[0] > 0:
                x = self.rng(st, a.a[0])
                if not x.empty() and x.hi() < INF and x.lo() > -INF:
                    r = iv(tdiv(x.lo(), a.a[1].a[0]), tdiv(x.hi(), a.a[1].a[0]))
            else:
                # |x / y| <= |x|; without the pair (least value, -1) the quotient stays in x's span
                x, y = self.rng(st, a.a[0]), self.rng(st, a.a[1])
                if not x.empty() and x.hi() < INF and x.lo() > -INF:
                    m = max(abs(x.lo()), abs(x.hi()))
                    r = iv(-m, m)
                    if not y.empty() and y.lo() >= 0:
                        r = iv(min(x.lo(), 0), max(x.hi(), 0))
                    elif y.inter(iv(-1, -1)).empty() and x.lo() < 0:
                        r = iv(min(x.lo(), 0, -x.hi() // 2), max(x.hi(), 0, -x.lo() // 2 + 1))
        if st is not None:
            f = st.facts.get(("r", a))
            if f is not None:
                r = r.inter(f)
        return r

    def rng(self, st, n):
        c, d = lin_parts(n)
        if not d:
            return iv(c, c)
        if len(d) == 1:
            (k, v), = d.items()
            r = self.arange(st, k)
            if v == 1:
                r = r.shift(c)
            elif v == -1:
                r = r.negate().shift(c)
            else:
                if r.empty():
                    return r
                lo, hi = r.lo(), r.hi()
                x, y = (lo * v if abs(lo) < INF else (-INF if v > 0 else INF)), (hi * v if abs(hi) < INF else (INF if v > 0 else -INF))
                r = iv(min(x, y), max(x, y)).shift(c)
        else:
            lo = hi = c
            for k, v in d.items():
                r = self.arange(st, k)
                if r.empty():
                    return r
                a, b = r.lo(), r.hi()
                if v < 0:
                    a, b = b, a
                lo = lo + a * v if abs(a) < INF and lo > -INF else -INF
                hi = hi + b * v if abs(b) < INF and hi < INF else INF
            r = iv(max(lo, -INF), min(hi, INF))
        key, sg, off = self.lkey(c, d)
        if st is not None:
            f = st.facts.get(("r", key))
            if f is not None:
                f2 = f if sg == 1 else f.negate()
                r = r.inter(f2.shift(off))
        return r

    def lkey(self, c, d):
        """canonical key: linear form without constant and with positive leading coefficient"""
        lead = min(d, key=lambda x: x.id)
        sg = 1 if d[lead] > 0 else -1
        key = mk_lin(0, {k: v * sg for k, v in d.items()})
        return key, sg, c

    def cond_in(self, n, iset):
        """condition: n in iset, canonical"""
        c, d = lin_parts(n)
        if not d:
            return I(1 if c in iset else 0)
        if any(k.op in INTOPS for k in d):
            sup = support(n)
            if len(sup) == 1:
                a, = sup
                r = self.trange(_typeof[a]) if a in _typeof else FULL
                if not r.empty() and r.size() <= 256:
                    vals = []
                    ok = True
                    for lo, hi in r.r:
                        for v in range(lo, hi + 1):
                            x = evalc(n, {a: v})
                            if x is None:
                                ok = False
                                break
                            if x in iset:
                                vals.append((v, v))
                    if ok:
                        return self.cond_in0(a, norm(vals), r)
        key, sg, off = self.lkey(c, d)
        s = iset.shift(-off)
        if sg < 0:
            s = s.negate()
        # single integer operations with an exact preimage
        if len(d) == 1 and abs(next(iter(d.values()))) == 1:
            o = key.op
            if o == "shr" and key.a[1].op == "i":
                k = key.a[1].a[0]
                return self.cond_in(key.a[0], norm([(a << k if abs(a) < INF else a, ((b + 1) << k) - 1 if abs(b) < INF else b) for a, b in s.r]))
            if o == "and" and (key.a[0].op == "i" or key.a[1].op == "i"):
                m, x = (key.a[0], key.a[1]) if key.a[0].op == "i" else (key.a[1], key.a[0])
                mv = m.a[0]
                if mv < 0 and (-mv) & (-mv - 1) == 0:
                    # clears the low k bits
                    k = (-mv).bit_length() - 1
                    rs = []
                    for a, b in s.r:
                        lo = a if a <= -INF else -((-a) >> k) << k
                        hi = b if b >= INF else ((b >> k) << k) + (1 << k) - 1
                        rs.append((lo, hi))
                    return self.cond_in(x, norm(rs))
                if s == iv(0, 0) or s == iv(0, 0).comp():
                    r = self.rng(None, x)
                    inv = s != iv(0, 0)
                    if mv > 0 and not r.empty() and r.lo() >= 0 and r.hi() < INF:
                        lowbits = (mv & -mv).bit_length() - 1
                        full = (1 << r.hi().bit_length()) - 1
                        if (mv >> lowbits) & ((full >> lowbits)) == (full >> lowbits):
                            c2 = iv(0, (1 << lowbits) - 1)
                            return self.cond_in(x, c2.comp() if inv else c2)
        if len(d) == 2 and s in (iv(0, 0), iv(0, 0).comp()) and off == 0 or (len(d) == 2 and s in (iv(0, 0), iv(0, 0).comp())):
            # x - cast(x) == 0 : x is representable
            for k in d:
                if k.op == "cast":
                    rest = sub(n, scale(k, d[k]))
                    x = rest if d[k] == -1 else neg(rest) if d[k] == 1 else None
                    if x is not None and k.a[2] is x:
                        b = k.a[0]
                        r = iv(-(1 << (b - 1)), (1 << (b - 1)) - 1) if k.a[1] else iv(0, (1 << b) - 1)
                        return self.cond_in(x, r if s == iv(0, 0) else r.comp())
        if len(d) == 1:
            (k, v), = d.items()
            v = abs(v)
            if v != 1:
                # v*k in s  -> k in ceil/floor
                rs = []
                for a, b in s.r:
                    a2 = a if a <= -INF else -((-a) // v)
                    b2 = b if b >= INF else b // v
                    rs.append((a2, b2))
                s = norm(rs)
                key = k
        return self.cond_in0(key, s, self.rng(None, key))

    def cond_in0(self, key, s, r):
        x = s.inter(r)
        if x.empty():
            return FALSE
        if x == r:
            return TRUE
        return mk("in", key, x)

    def decide(self, st, c):
        if c.op == "i":
            return bool(c.a[0])
        if c.op == "in":
            r = self.rng(st, c.a[0])
            x = r.inter(c.a[1])
            if x.empty():
                return False
            if x == r:
                return True
            return None
        if c.op == "not":
            r = self.decide(st, c.a[0])
            return None if r is None else not r
        if c.op == "streq":
            t, l = c.a
            f = st.facts.get(("s", t))
            if f is None:
                if t.op == "smap" and t.a[0] == "to_lowercase":
                    if l.lower() != l:
                        return False
                    g = st.facts.get(("s", t.a[1]))
                    if g is not None and g[0]:
                        return g[1].lower() == l
                elif t.op == "sym":
                    for p in (".", "%"):
                        b = st.facts.get(("b", mk("starts_with", S(t), p)))
                        if b is not None and l.startswith(p) != b:
                            return False
                return None
            if f[0]:
                return f[1] == l
            return False if l in f[1] else None
        if c.op == "starts_with" and c.a[0].op == "S" and len(c.a[0].a) == 1:
            t = c.a[0].a[0]
            if type(t) is N and t.op == "smap" and t.a[0] == "to_lowercase" and t.a[1].op != "S" and not c.a[1].isalpha():
                return self.decide(st, mk("starts_with", S(t.a[1]), c.a[1]))
            f = st.facts.get(("s", t)) if type(t) is N else None
            if f is not None and f[0]:
                return f[1].startswith(c.a[1])
            return st.facts.get(("b", c))
        if c.op == "isv":
            t, v = c.a
            vs = st.facts.get(("d", t))
            if vs is None:
                return None
            if v not in vs:
                return False
            return True if len(vs) == 1 else None
        return st.facts.get(("b", c))

    def assume(self, st, c, truth):
        """refined copy of st or None"""
        if c.op == "i":
            return st if bool(c.a[0]) == truth else None
        if c.op == "not":
            return self.assume(st, c.a[0], not truth)
        d = self.decide(st, c)
        if d is not None:
            return st if d == truth else None
        st = st.copy()
        if c.op == "in":
            s = c.a[1] if truth else c.a[1].comp()
            x = self.rng(st, c.a[0]).inter(s)
            if x.empty():
                return None
            st.facts[("r", c.a[0])] = x
            return st
        if c.op == "streq":
            t, l = c.a
            f = st.facts.get(("s", t))
            if truth:
                st.facts[("s", t)] = (True, l)
            else:
                st.facts[("s", t)] = (False, (f[1] if f else frozenset()) | {l})
            return st
        if c.op == "isv":
            t, v = c.a
            vs = st.facts.get(("d", t))
            if vs is None:
                vs = frozenset(range(len(self.T[_typeof[t]]["variants"])))
            vs = frozenset([v]) if truth else vs - {v}
            if not vs:
                return None
            st.facts[("d", t)] = vs
            return st
        st.facts[("b", c)] = truth
        return st

    def fork(self, st, c):
        """-> list of (truth, state)"""
        d = self.decide(st, c)
        if d is not None:
            return [(d, st)]
        out = []
        for tr in (True, False):
            s = self.assume(st, c, tr)
            if s is not None:
                out.append((tr, s))
        return out

    # ------------------------------------------------------------ memory
    def load(self, st, loc):
        obj, path = loc
        v = self.root(st, obj)
        for i, e in enumerate(path):
            v = self.proj(st, v, e)
        return v

    def root(self, st, obj):
        v = st.mem.get(obj)
        if v is not None:
            return v
        if obj[0] == "V":
            return obj[1]
        if obj[0] == "P":
            t = mk("*", obj[1])
            ti = _typeof.get(t)
            if ti is None:
                return t
            return self.symval(t, ti)
        if obj[0] == "U":
            return mk("uninit")
        return mk("uninit")

    def field(self, v, variant, i, fty=None):
        if v.op == "adt":
            if v.a[2 + i:3 + i]:
                return v.a[2 + i]
            return mk("uninit")
        if v.op in ("tup", "clo"):
            off = 1 if v.op == "clo" else 0
            return v.a[off + i]
        if v.op == "uninit":
            return v
        if v.op == "box":
            return v
        if v.op == "hbox":
            return v
        t = mk("fld", v, variant, i)
        if fty is None:
            ti = _typeof.get(v)
            if ti is not None and self.T[ti]["k"] == "adt":
                vs = self.T[ti]["variants"]
                fty = vs[variant or 0]["fields"][i][1]
        if fty is None:
            return t
        return self.symval(t, fty)

    def proj(self, st, v, e):
        k = e[0]
        if k == "f":
            return self.field(v, e[1], e[2], e[3])
        if k == "b":
            if v.op == "box":
                return v.a[0]
            if v.op == "hbox":
                return self.load(st, (v.a[0], ()))
            return mk("*", v)
        if k == "ci":
            return self.elem(st, v, I(e[1]) if not e[3] else sub(self.length(v), I(e[1])))
        if k == "ix":
            return self.elem(st, v, e[1])
        if k == "ss":
            if v.op == "seq":
                parts = list(v.a)
                frm, to, fe = e[1], e[2], e[3]
                if all(p.op == "e" for p in parts[:frm]):
                    c = seq_concrete(v)
                    if c is not None:
                        return seq(*parts[frm:(len(parts) - to) if fe else to])
                    if fe and to == 0:
                        return seq(*parts[frm:])
            return mk("app", "subslice", v, *e[1:])
        if k == "mk":
            return self.mapval(st, v, e[1], e[2])
        if k == "sl":
            return self.M.subseq(self, st, v, e[1], e[2])
        if k == "mb":
            return self.proj(st, v, e[1])
        raise Imprecise("proj %r" % (e,))

    def mapval(self, st, m, key, vty):
        if m.op == "map":
            for p in reversed(m.a[1:]):
                if p.a[0] is key:
                    return p.a[1]
        t = mk("mapval", m, key)
        return self.symval(t, vty) if vty is not None else t

    def length(self, v):
        if v.op == "seq":
            return seq_len(v)
        if v.op == "S":
            l = lit(v)
            if l is not None:
                return I(len(l.encode()))
            r = I(0)
            for p in v.a:
                r = add(r, I(len(p.encode())) if type(p) is str else I(1) if p.op == "byte" else mk("len", p))
            return r
        return mk("len", v)

    def elem(self, st, v, i, ety=None):
        if v.op == "seq":
            k = seq_part(v, i.a[0]) if i.op == "i" else None
            if k is not None:
                return v.a[k[0]].a[0]
            pos = I(0)
            for p in v.a:
                rel = sub(i, pos)
                if p.op == "e":
                    if rel.op == "i" and rel.a[0] == 0:
                        return p.a[0]
                    r = self.rng(st, rel)
                    if 0 in r and rel.op != "i":
                        break
                    pos = add(pos, I(1))
                elif p.op == "rep":
                    r = self.rng(st, rel)
                    r2 = self.rng(st, sub(p.a[1], rel))
                    if not r.empty() and r.lo() >= 0 and not r2.empty() and r2.lo() >= 1:
                        return p.a[0]
                    pos = add(pos, p.a[1])
                else:
                    if len(v.a) == 1 or p is v.a[-1]:
                        t = p.a[0]
                        r = self.rng(st, rel)
                        if t.op == "set":
                            dd = self.rng(st, sub(rel, t.a[1]))
                            if dd == iv(0, 0):
                                return t.a[2]
                            if 0 not in dd:
                                return self.elem(st, t.a[0], rel, ety)
                        if not r.empty() and r.lo() >= 0 or len(v.a) == 1:
                            e = mk("idx", t, rel)
                            ti = _typeof.get(t)
                            et = self.elemty(ti) if ti is not None else None
                            return self.symval(e, et) if et is not None else e
                    pos = add(pos, qlen(p.a[0]))
            e = mk("idx", v, i)
            if ety is None:
                ety = self.seq_elemty(v)
            return self.symval(e, ety) if ety is not None else e
        e = mk("idx", v, i)
        ti = _typeof.get(v)
        et = self.elemty(ti) if ti is not None else None
        return self.symval(e, et) if et is not None else e

    def seq_elemty(self, v):
        for p in v.a:
            if p.op == "q":
                ti = _typeof.get(p.a[0])
                if ti is not None:
                    return self.elemty(ti)
            else:
                x = p.a[0]
                if x.op == "adt":
                    return x.a[0]
        return None

    def elemty(self, ti):
        t = self.T[ti]
        if t["k"] in ("slice", "array"):
            return t["of"]
        if t["k"] == "adt" and t["args"]:
            return t["args"][0]
        if t["k"] in ("ref", "ptr"):
            return self.elemty(t["of"])
        return None

    def store(self, st, loc, val):
        obj, path = loc
        if obj[0] == "V":
            approximate(st, "store to a value in " + (self.stack[-1].sname if self.stack else "?"))
            return
        if not path:
            st.mem[obj] = val
            return
        st.mem[obj] = self.upd(st, self.root(st, obj), path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        k = e[0]
        if k == "f":
            _, variant, i, fty = e
            if v.op == "uninit" and len(e) > 3:
                # building an aggregate field by field: keep partial record
                d = {}
                return mk("part", tuple([(variant, i, self.upd(st, mk("uninit"), path[1:], val))]))
            if v.op == "part":
                items = [x for x in v.a[0] if not (x[0] == variant and x[1] == i)]
                old = [x[2] for x in v.a[0] if x[0] == variant and x[1] == i]
                items.append((variant, i, self.upd(st, old[0] if old else mk("uninit"), path[1:], val)))
                return mk("part", tuple(sorted(items, key=lambda x: (x[0] or 0, x[1]))))
            if v.op == "adt":
                a = list(v.a)
                while len(a) <= 2 + i:
                    a.append(mk("uninit"))
                a[2 + i] = self.upd(st, a[2 + i], path[1:], val)
                return mk("adt", *a)
            if v.op in ("tup", "clo"):
                a = list(v.a)
                off = 1 if v.op == "clo" else 0
                a[off + i] = self.upd(st, a[off + i], path[1:], val)
                return mk(v.op, *a)
            ti = _typeof.get(v)
            if ti is not None and self.T[ti]["k"] == "adt":
                vi = variant or 0
                fs = self.T[ti]["variants"][vi]["fields"]
                nv = mk("adt", ti, vi, *[self.field(v, variant if self.T[ti]["kind"] == "enum" else None, j, f[1]) for j, f in enumerate(fs)])
                return self.upd(st, nv, path, val)
            return mk("app", "updfield", v, i, val)
        if k == "b":
            if v.op == "box":
                return mk("box", self.upd(st, v.a[0], path[1:], val))
            if v.op == "hbox":
                o = v.a[0]
                st.mem[o] = self.upd(st, self.root(st, o), path[1:], val)
                return v
            return mk("box", self.upd(st, mk("*", v), path[1:], val))
        if k in ("ix", "ci"):
            i = e[1] if k == "ix" else I(e[1])
            old = self.elem(st, v, i)
            nv = self.upd(st, old, path[1:], val)
            w = seq_part(v, i.a[0]) if v.op == "seq" and i.op == "i" else None
            if w is not None:
                j, off, n = w
                p = v.a[j]
                new = [mk("rep", p.a[0], I(m)) for m in (off, n - off - 1)] if p.op == "rep" else [None, None]
                if nv is p.a[0] and p.op == "rep":
                    return v
                new = [new[0]] * (p.op == "rep" and off > 0) + [E(nv)] + [new[1]] * (p.op == "rep" and n - off > 1)
                return mk("seq", *(v.a[:j] + tuple(new) + v.a[j + 1:]))
            t = mk("set", v, i, nv)
            ti = None
            ev = v
            while ev.op == "seq" and len(ev.a) == 1 and ev.a[0].op == "q" and ev.a[0].a[0].op == "set":
                ev = ev.a[0].a[0].a[0]
            if ev.op == "seq":
                for p in ev.a:
                    if p.op == "q" and p.a[0] in _typeof:
                        ti = _typeof[p.a[0]]
            if ti is not None:
                _typeof.setdefault(t, ti)
            return seq(Q(t))
        if k == "sl":
            old = self.M.subseq(self, st, v, e[1], e[2])
            return self.M.splice(self, st, v, e[1], e[2], self.upd(st, old, path[1:], val))
        if k == "mk":
            key = e[1]
            old = self.mapval(st, v, key, e[2])
            return self.M.map_insert(v, key, self.upd(st, old, path[1:], val))
        raise Imprecise("upd %r" % (e,))

    # ------------------------------------------------------------ places
    def place(self, st, fr, pl):
        """-> (obj, path) ; may dereference"""
        obj = (fr.uid, pl[0])
        path = ()
        ti = fr.fn.locals[pl[0]]
        variant = None
        for e in pl[1]:
            k = e[0]
            t = self.T[ti]
            if k == "*":
                v = self.load(st, (obj, path))
                ti = t["of"] if t["k"] in ("ref", "ptr") else t["args"][0]
                if t["k"] == "adt" and t["box"]:
                    if v.op == "hbox":
                        obj, path = v.a[0], ()
                    else:
                        path = path + (("b",),)
                else:
                    obj, path = self.deref(st, v, ti)
                variant = None
            elif k == "f":
                if t["k"] == "adt" and (t["box"] or (t["kind"] == "union") or self.transparent(t)):
                    # box/wrapper internals are transparent
                    ti = e[2]
                    variant = None
                    continue
                path = path + (("f", variant if t["k"] == "adt" and t["kind"] == "enum" else None, e[1], e[2]),)
                ti = e[2]
                variant = None
            elif k == "dc":
                variant = e[1]
            elif k == "ix":
                i = self.load(st, ((fr.uid, e[1]), ()))
                path = path + (("ix", i),)
                ti = self.elemty(ti)
            elif k == "ci":
                path = path + (("ci", e[1], e[2], e[3]),) if e[3] else path + (("ix", I(e[1])),)
                ti = self.elemty(ti)
            elif k == "ss":
                path = path + (("ss", e[1], e[2], e[3]),)
            elif k == "oc":
                ti = e[1]
        return obj, path, ti

    def transparent(self, t):
        return t["name"].split("::")[-1] in ("MaybeUninit", "ManuallyDrop", "MaybeDangling", "Unique", "NonNull")

    def deref(self, st, v, ti):
        if v.op == "ref":
            return v.a[0], v.a[1]
        if v.op in ("S", "seq"):
            return ("V", v), ()
        if v.op == "hbox":
            return v.a[0], ()
        if v.op == "box":
            return ("V", v.a[0]), ()
        if ti is not None:
            _typeof.setdefault(mk("*", v), ti)
        return ("P", v), ()

    def deref_val(self, st, v, ti=None):
        """value behind a reference value"""
        if v.op in ("S", "seq"):
            return v
        o, p = self.deref(st, v, ti)
        return self.load(st, (o, p))

    def mkref(self, st, loc, ti):
        obj, path = loc
        if self.T[ti]["k"] == "str":
            v = self.load(st, (obj, path))
            if v.op == "S":
                return v
        if obj[0] == "V" and not path and obj[1].op == "S" and self.T[ti]["k"] == "str":
            return obj[1]
        if obj[0] == "P" and not path and ("P", obj[1]) not in st.mem and False:
            return obj[1]
        return mk("ref", obj, path)

    # ------------------------------------------------------------ constants / operands
    def const(self, c):
        ti = c.get("ty")
        if "i" in c:
            return I(c["i"])
        if "str" in c:
            return S(c["str"])
        if "ref" in c:
            v = self.const(c["ref"])
            if v.op == "S":
                return v
            return mk("ref", ("V", v), ())
        if "arr" in c:
            return seq(*[E(self.const(x)) for x in c["arr"]])
        if "tup" in c:
            return mk("tup", *[self.const(x) for x in c["tup"]])
        if "adt" in c:
            t = self.T[ti]
            if t["kind"] == "struct" and self.transparent(t) and c["f"]:
                return self.const(c["f"][0])
            v = mk("adt", ti, c["adt"], *[self.const(x) for x in c["f"]])
            if t["name"] in ("std::string::String", "alloc::string::String"):
                return S("")
            if t["name"] in ("std::vec::Vec", "alloc::vec::Vec"):
                return seq()
            return v
        if "fbits" in c:
            return mk("f", self.fwidth(c["ty"]), c["fbits"])
        if "zst" in c:
            t = self.T[ti]
            if t["k"] == "fndef":
                return mk("fn", t["fn"])
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "closure":
                return mk("clo", ti)
            if t["k"] == "adt":
                return mk("adt", ti, 0)
            if t["k"] == "array":
                return seq()
            return mk("zst", ti)
        if "fnptr" in c:
            return mk("fn", c["fnptr"])
        if "static" in c:
            n = c["static"]
            return mk("ref", ("V", mk("static", n)), ())
        return mk("const", ti, str(sorted(c.items())))

    def operand(self, st, fr, o):
        k = o[0]
        if k in ("c", "m"):
            obj, path, ti = self.place(st, fr, o[1])
            return self.load(st, (obj, path))
        if k == "k":
            return self.const(o[1])
        return I(0)

    def opty(self, fr, o):
        if o[0] in ("c", "m"):
            return None
        return o[1].get("ty") if o[0] == "k" else None

    # ------------------------------------------------------------ arithmetic
    def fwidth(self, ti):
        return {"f32": 32, "f64": 64}.get(str(self.T[ti].get("w", "")).lower(), 0)

    def intty(self, ti):
        t = self.T[ti]
        if t["k"] == "int":
            return t["bits"], t["signed"]
        if t["k"] == "char":
            return 32, False
        if t["k"] == "bool":
            return 1, False
        return None

    def b2i(self, c):
        return c

    def binop(self, st, op, a, b, ti):
        t = self.T[ti] if ti is not None else None
        if t and t["k"] == "float":
            if a.op == "f" and b.op == "f":
                x, y = fvalue(a), fvalue(b)
                if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                    return I(int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]))
                r = fconst(a.a[0], FARITH[op], x, y) if op in FARITH else None
                if r is not None:
                    return r
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                c = mk("fcmp", op, a, b)
                return c
            return mk("fop", op, a, b)
        if t and t["k"] in ("ptr", "ref", "fnptr"):
            if op == "Offset":
                return mk("offset", a, b)
            if op == "Eq" and a is b:
                return TRUE
            if op == "Ne" and a is b:
                return FALSE
            return mk("ptrop", op, a, b)
        if t and t["k"] == "bool":
            da, db = self.decide(st, a), self.decide(st, b)
            a = I(int(da)) if da is not None else a
            b = I(int(db)) if db is not None else b
            if op == "BitAnd":
                if a is FALSE or b is FALSE:
                    return FALSE
                return b if a is TRUE else a if b is TRUE or a is b else mk("band", a, b)
            if op == "BitOr":
                if a is TRUE or b is TRUE:
                    return TRUE
                return b if a is FALSE else a if b is FALSE or a is b else mk("bor", a, b)
            if op in ("Eq", "BitXor", "Ne"):
                ng = op != "Eq"
                for x, y in ((a, b), (b, a)):
                    if x.op == "i":
                        r = y if x.a[0] else neg_cond(y)
                        return neg_cond(r) if ng else r
                if a is b:
                    return I(0 if ng else 1)
                r = mk("biff", a, b)
                return neg_cond(r) if ng else r
            return mk("bcmp", op, a, b)
        # integers
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            d = sub(a, b)
            if op == "Cmp":
                return mk("cmp", d)
            s = {"Eq": iv(0, 0), "Ne": iv(0, 0).comp(), "Lt": iv(-INF, -1), "Le": iv(-INF, 0), "Gt": iv(1, INF), "Ge": iv(0, INF)}[op]
            return self.cond_in(d, s)
        if t is None or t["k"] not in ("int", "char"):
            return mk("op", op, a, b)
        bits, sg = self.intty(ti)
        op0 = op.replace("Unchecked", "")
        if op0 in ("Add", "Sub", "Mul"):
            r = self.arith(op0, a, b)
            if self.rng(st, r).subset(self.trange(ti)) or op.endswith("Unchecked"):
                return r
            if r.op == "i":
                return I(wrap(r.a[0], bits, sg))
            return mk("wrap", ti, r)
        if op0 in ("BitAnd", "BitOr", "BitXor"):
            o = {"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op0]
            if a.op == "i" and b.op == "i":
                return I(wrap(OPS2[o](a.a[0], b.a[0]), bits, sg))
            for x, y in ((a, b), (b, a)):
                if x.op == "i":
                    m = x.a[0]
                    if o == "and":
                        if m == 0:
                            return I(0)
                        if m > 0 and (m & (m + 1)) == 0:
                            r = self.rng(st, y)
                            if r.subset(iv(0, m)):
                                return y
                        if m == -1:
                            return y
                        if m > 0:
                            return self.mask(st, m, y)
                    if o in ("or", "xor") and m == 0:
                        return y
            if a.id > b.id:
                a, b = b, a
            return mk(o, a, b)
        if op0 in ("Shl", "Shr"):
            if b.op == "i":
                k = b.a[0] & (bits - 1)
                if a.op == "i":
                    return I(wrap(a.a[0] << k, bits, sg) if op0 == "Shl" else a.a[0] >> k)
                if k == 0:
                    return a
                if op0 == "Shl":
                    r = scale(a, 1 << k)
                    return mk("shl", a, b, bits, sg)
                r = self.rng(st, a)
                if not r.empty() and 0 <= r.lo() and r.hi() < (1 << k):
                    return I(0)
                if a.op == "and" and "i" in (a.a[0].op, a.a[1].op):
                    m, y = (a.a[0], a.a[1]) if a.a[0].op == "i" else (a.a[1], a.a[0])
                    if m.a[0] > 0:
                        return self.mask(st, m.a[0] >> k, self.binop(st, "Shr", y, b, ti))
                return mk("shr", a, I(k))
            return mk("shl", a, b, bits, sg) if op0 == "Shl" else mk("shr", a, b)
        if op0 in ("Div", "Rem"):
            if a.op == "i" and b.op == "i" and b.a[0] != 0:
                q = tdiv(a.a[0], b.a[0])
                return I(q) if op0 == "Div" else I(a.a[0] - q * b.a[0])
            if op0 == "Div" and b is I(1):
                return a
            if op0 == "Rem" and b.op == "i" and b.a[0] > 0:
                r = self.rng(st, a)
                if not r.empty() and r.lo() >= 0 and r.hi() < b.a[0]:
                    return a
            return mk("div" if op0 == "Div" else "rem", a, b)
        return mk("op", op, a, b)

    def mask(self, st, m, y):
        """y & m for a constant m >= 0; low masks are written as casts"""
        while True:
            if y.op == "i":
                return I(y.a[0] & m)
            if m == 0:
                return I(0)
            if y.op == "cast" and y.a[2].op not in ("discr", "fint") and m < (1 << y.a[0]):
                y = y.a[2]
            elif y.op == "and" and "i" in (y.a[0].op, y.a[1].op):
                c, y = (y.a[0], y.a[1]) if y.a[0].op == "i" else (y.a[1], y.a[0])
                m &= c.a[0]
            else:
                break
        if m & (m + 1) == 0:
            if self.rng(st, y).subset(iv(0, m)):
                return y
            return mk("cast", m.bit_length(), False, y)
        a, b = I(m), y
        if a.id > b.id:
            a, b = b, a
        return mk("and", a, b)

    def arith(self, op, a, b):
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if a.op == "i":
            return scale(b, a.a[0])
        if b.op == "i":
            return scale(a, b.a[0])
        if a.id > b.id:
            a, b = b, a
        return mk("mul", a, b)

    def cast_int(self, st, v, to, frm):
        tt = self.T[to]
        it = self.intty(to)
        if it is None:
            if self.T[to]["k"] == "float" and v.op in ("i", "f"):
                return fconst(self.fwidth(to), lambda: float(v.a[0]) if v.op == "i" else fvalue(v))
            return mk("fcast", to, v)
        bits, sg = it
        if frm is not None and self.T[frm]["k"] == "bool":
            d = self.decide(st, v)
            return I(int(d)) if d is not None else mk("b2i", v)
        if frm is not None and self.T[frm]["k"] == "float":
            if v.op == "f":
                x = fvalue(v)
                lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
                return I(0 if x != x else hi if x >= hi else lo if x <= lo else int(x))
            return mk("cast", bits, sg, mk("fint", v))
        if frm is not None and self.T[frm]["k"] == "adt":
            pass
        if v.op == "i":
            return I(wrap(v.a[0], bits, sg))
        r = self.rng(st, v)
        if r.subset(self.trange(to)):
            return v
        # cast of a wider cast collapses
        x = v
        while x.op == "cast" and x.a[0] >= bits:
            x = x.a[2]
        if x is not v:
            r = self.rng(st, x)
            if r.subset(self.trange(to)):
                return x
        if not sg and x.op == "and" and any(y.op == "i" and y.a[0] >= 0 for y in x.a):
            return self.mask(st, (1 << bits) - 1, x)
        return mk("cast", bits, sg, x)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k in ("ref", "addr"):
            obj, path, ti = self.place(st, fr, rv[2])
            if path and path[-1][0] == "ss":
                return mk("ref", ("V", self.load(st, (obj, path))), ())
            return self.mkref(st, (obj, path), ti)
        if k == "agg":
            kind = rv[1]
            vals = [self.operand(st, fr, o) for o in rv[2]]
            if kind[0] == "array":
                return seq(*[E(v) for v in vals])
            if kind[0] == "tuple":
                return mk("tup", *vals)
            if kind[0] == "adt":
                t = self.T[kind[1]]
                if t["kind"] == "union" or (self.transparent(t) and vals):
                    return vals[0] if vals else mk("uninit")
                return mk("adt", kind[1], kind[2], *vals)
            if kind[0] == "closure":
                return mk("clo", kind[1], *vals)
            if kind[0] == "rawptr":
                return vals[0]
            return mk("agg", str(kind), *vals)
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), rv[4])
        if k == "cbin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            ti = rv[4]
            op = rv[1]
            if op in ("Add", "Sub", "Mul"):
                r = self.arith(op, a, b)
                full = self.trange(ti)
                ov = neg_cond(self.cond_in(r, full)) if not self.rng(st, r).subset(full) else FALSE
                return mk("tup", r, ov)
            r = self.binop(st, op, a, b, ti)
            return mk("tup", r, mk("ovf", op, a, b) if b.op != "i" else FALSE)
        if k == "un":
            v = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                ti = rv[3]
                if self.T[ti]["k"] == "bool":
                    return neg_cond(v)
                bits, sg = self.intty(ti)
                if v.op == "i":
                    return I(wrap(~v.a[0], bits, sg))
                return mk("bnot", v, bits, sg)
            if rv[1] == "Neg":
                ti = rv[3]
                if self.T[ti]["k"] == "float":
                    if v.op == "f":
                        return fconst(v.a[0], lambda: -fvalue(v))
                    return mk("fop", "Neg", v)
                r = neg(v)
                if r.op == "i":
                    return I(wrap(r.a[0], *self.intty(ti)))
                return r
            if rv[1] == "PtrMetadata":
                return self.length(self.deref_val(st, v))
            return mk("un", rv[1], v)
        if k == "cast":
            return self.cast(st, fr, rv)
        if k == "discr":
            obj, path, ti = self.place(st, fr, rv[1])
            v = self.load(st, (obj, path))
            return self.discr(st, v, ti)
        if k == "len":
            obj, path, ti = self.place(st, fr, rv[1])
            return self.length(self.load(st, (obj, path)))
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            return seq(mk("rep", v, I(rv[2] if rv[2] is not None else 0)))
        return mk("rv", k)

    def discr(self, st, v, ti):
        if v.op == "adt":
            return I(self.T[v.a[0]]["variants"][v.a[1]]["discr"])
        _typeof.setdefault(v, ti)
        return mk("discr", v)

    def cast(self, st, fr, rv):
        kind, o, to, frm = rv[1], rv[2], rv[3], rv[4]
        v = self.operand(st, fr, o)
        if kind.startswith("IntToInt") or kind in ("FloatToInt", "IntToFloat", "FloatToFloat"):
            if v.op == "discr":
                pass
            return self.cast_int(st, v, to, frm)
        if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind or "UnsafeFnPointer" in kind:
            return v
        if "Unsize" in kind:
            tt = self.T[to]
            ft = self.T[frm]
            tgt = tt["of"] if tt["k"] in ("ref", "ptr") else (tt["args"][0] if tt["k"] == "adt" and tt["box"] else None)
            if tgt is not None and self.T[tgt]["k"] == "dyn":
                src = ft["of"] if ft["k"] in ("ref", "ptr") else (ft["args"][0] if ft["k"] == "adt" and ft.get("args") else frm)
                return mk("dyn", src, tgt, v)
            return v
        if kind == "BoxDerefTransmute" or kind == "Transmute" or kind.startswith("PtrToPtr"):
            if v.op == "box":
                return mk("ref", ("V", v.a[0]), ())
            if v.op == "hbox":
                return mk("ref", v.a[0], ())
            if kind == "Transmute":
                it = self.intty(to)
                if it is not None and frm is not None and self.intty(frm) is not None:
                    return self.cast_int(st, v, to, frm)
            return v
        return v

    # ------------------------------------------------------------ running
    class Frame:
        __slots__ = ("fn", "uid", "ret")

    def run(self, f, args, st, uid):
        """inline execution of f: -> [(st, value)]"""
        if f.blocks is None:
            raise Imprecise("no body: " + f.name)
        self.analysed[f.name] = self.analysed.get(f.name, 0) + 1
        fr = Engine.Frame()
        fr.fn = f
        fr.uid = uid
        vals = list(args)
        if f.spread is not None:
            # rust-call ABI: the last argument tuple is spread
            pass
        if len(vals) != f.argc:
            raise Imprecise("arity %s: %d vs %d" % (f.name, len(vals), f.argc))
        st = st.copy()
        for i, v in enumerate(vals):
            st.mem[(uid, i + 1)] = v
        self.P.loops(f)
        self.stack.append(f)
        try:
            exits, backs = self.explore(fr, [(0, st)], None, None)
        finally:
            self.stack.pop()
        out = []
        for b, s in exits:
            r = s.mem.get((uid, 0), UNIT)
            m = {k: v for k, v in s.mem.items() if k[0] != uid}
            out.append((St(m, s.facts, s.eff, s.apx), r))
        return self.merge_rets(out)

    def merge_rets(self, out):
        d = {}
        for s, r in out:
            k = (r, s.eff, frozenset(s.mem.items()))
            d.setdefault(k, []).append(s)
        res = []
        for k, ss in d.items():
            for s in self.merge_facts(ss):
                res.append((s, k[0]))
        return res

    def merge_facts(self, ss):
        ss = list(ss)
        changed = True
        while changed and len(ss) > 1:
            changed = False
            for i in range(len(ss)):
                for j in range(i + 1, len(ss)):
                    m = self.fjoin(ss[i].facts, ss[j].facts)
                    if m is not None:
                        ss[i] = St(ss[i].mem, m, ss[i].eff, ss[i].apx | ss[j].apx)
                        del ss[j]
                        changed = True
                        break
                if changed:
                    break
            if len(ss) > 300:
                break
        return ss

    def fjoin(self, a, b):
        if a == b:
            return a
        ka, kb = a.keys(), b.keys()
        diff = [k for k in ka | kb if a.get(k) != b.get(k)]
        if len(diff) != 1:
            # subsumption: all of a's facts implied by weaker b
            if all(self.weaker(k, b.get(k), a.get(k)) for k in diff):
                return b
            if all(self.weaker(k, a.get(k), b.get(k)) for k in diff):
                return a
            return None
        k = diff[0]
        x, y = a.get(k), b.get(k)
        r = dict(a)
        if x is None or y is None:
            r.pop(k, None)
            return r
        if k[0] == "r":
            u = x.union(y)
            if u == self.rng(None, k[1]):
                r.pop(k)
            else:
                r[k] = u
            return r
        if k[0] == "d":
            u = x | y
            ti = _typeof.get(k[1])
            if ti is not None and len(u) == len(self.T[ti]["variants"]):
                r.pop(k)
            else:
                r[k] = u
            return r
        if k[0] == "b":
            r.pop(k)
            return r
        if k[0] == "s":
            if x[0] and not y[0]:
                x, y = y, x
            if not x[0] and y[0]:
                e = x[1] - {y[1]}
                if e:
                    r[k] = (False, e)
                else:
                    r.pop(k)
                return r
            if not x[0] and not y[0]:
                e = x[1] & y[1]
                if e:
                    r[k] = (False, e)
                else:
                    r.pop(k)
                return r
            return None
        return None

    def weaker(self, k, w, s):
        """is fact w (possibly None) implied by fact s"""
        if w is None:
            return True
        if s is None:
            return False
        if w == s:
            return True
        if k[0] == "r":
            return s.subset(w)
        if k[0] == "d":
            return s <= w
        if k[0] == "s":
            if s[0]:
                return (not w[0]) and s[1] not in w[1]
            return (not w[0]) and w[1] <= s[1]
        return False

    def explore(self, fr, entry, body, head):
        f = fr.fn
        loops = self.P.loops(f)
        num = {b: i for i, b in enumerate(f._rpo)}
        pend = {}
        for b, s in entry:
            pend.setdefault(b, []).append(s)
        exits, backs = [], []
        first = head is not None
        while pend:
            b = min(pend, key=lambda x: num[x])
            ss = pend.pop(b)
            if len(ss) > 1:
                ss = self.merge_at(ss)
            for s in ss:
                if b in loops and b != head:
                    outs = self.run_loop(fr, b, s)
                else:
                    outs = self.block(fr, b, s)
                for nb, ns in outs:
                    if nb is None:
                        exits.append((None, ns))
                    elif body is not None and nb == head:
                        backs.append(ns)
                    elif body is not None and nb not in body:
                        exits.append((nb, ns))
                    else:
                        pend.setdefault(nb, []).append(ns)
                        if len(pend[nb]) > (50000 if self.finite else 3000):
                            raise Imprecise("too many states in %s bb%d" % (f.name, nb))
        return exits, backs

    def merge_at(self, ss):
        d = {}
        for s in ss:
            d.setdefault((s.eff, frozenset(s.mem.items())), []).append(s)
        out = []
        for k, g in d.items():
            out.extend(self.merge_facts(g) if len(g) > 1 else g)
        return out

    # ------------------------------------------------------------ loops
    UNROLL = 700

    def run_loop(self, fr, head, st0):
        f = fr.fn
        body = self.P.loops(f)[head]
        exits = []
        cur = [st0]
        n = 0
        pn = len(self.panics)
        conc0 = self.conc
        while True:
            nxt = []
            its = []
            bad = False
            for s in cur:
                self.conc = False
                ex, bk = self.explore(fr, [(head, s)], body, head)
                conc = self.conc
                live = [e for e in ex if e[0] is None or e[0] in f._live]
                its.extend(ex)
                nxt.extend(bk)
                if bk and live and not conc and not self.finite:
                    bad = True
                if bk and s in bk:
                    bad = True
            if bad or n > self.UNROLL or len(nxt) > (50000 if self.finite else 200):
                break
            exits.extend(its)
            if not nxt:
                self.conc = True
                return exits
            cur = self.merge_at(nxt)
            n += 1
        # widen from the current states
        del self.panics[pn:]
        for s in cur:
            exits.extend(self.widen(fr, head, body, s, n))
        self.conc = conc0
        return exits

    def widen(self, fr, head, body, st0, n):
        f = fr.fn
        uid = self.uid("loop", fr.uid, head, n)
        h = st0.copy()
        base_eff = st0.eff
        h.eff = ()
        pn = len(self.panics)
        for it in range(12):
            del self.panics[pn:]
            ex, bk = self.explore(fr, [(head, h)], body, head)
            mem = dict(h.mem)
            facts = dict(h.facts)
            changed = False
            for b in bk:
                for k in list(mem):
                    v2 = b.mem.get(k)
                    if v2 is None:
                        # dead on the back edge
                        if k[0] == fr.uid:
                            del mem[k]
                            changed = True
                        continue
                    if v2 is not mem[k]:
                        # only generalise what is live at the head: locals are compared structurally
                        g = self.gen(mem[k], v2, uid, (k,), self.objty(fr, k))
                        if g is not mem[k]:
                            mem[k] = g
                            changed = True
                for k, v2 in b.mem.items():
                    if k not in mem and k not in h.mem and k[0] in ("P", "H", "X"):
                        # written in the body, default before
                        old = self.root(h, k)
                        g = self.gen(old, v2, uid, (k,), None)
                        if g is not old:
                            mem[k] = g
                            changed = True
                for k in list(facts):
                    w = b.facts.get(k)
                    if w != facts[k]:
                        if not self.weaker(k, facts[k], w):
                            del facts[k]
                            changed = True
            if not changed:
                break
            h = St(mem, facts, (), h.apx)
        else:
            raise Imprecise("loop does not stabilise in %s bb%d" % (f.name, head))
        why = "loop in " + f.sname
        for p in self.panics[pn:]:
            p[0].eff = base_eff + (("loop", uid),) + p[0].eff
            approximate(p[0], why)
        li = LoopInfo()
        li.uid = uid
        li.fn = f
        li.headbb = head
        li.init = st0
        li.head = h
        li.rows = bk
        li.exits = ex
        self.loops[uid] = li
        out = []
        for b, s in ex:
            s = s.copy()
            s.eff = base_eff + (("loop", uid),) + s.eff
            approximate(s, why)
            out.append((b, s))
        # monotone bounds: a mu whose every update is >= itself is >= its initial value
        self.bounds(li, out)
        return out

    def bounds(self, li, out):
        for k, hv in li.head.mem.items():
            if hv.op != "mu":
                continue
            iv0 = li.init.mem.get(k)
            if iv0 is None or k not in li.init.mem:
                continue
            lo = all(b.mem.get(k) is not None and self._ge(b, b.mem[k], hv) for b in li.rows)
            r0 = self.rng(li.init, iv0)
            if lo and not r0.empty() and r0.lo() > -INF:
                for b, s in out:
                    x = self.rng(s, hv).inter(iv(r0.lo(), INF))
                    if not x.empty():
                        s.facts[("r", hv)] = x

    def _ge(self, st, a, b):
        try:
            r = self.rng(st, sub(a, b))
        except Exception:
            return False
        return not r.empty() and r.lo() >= 0

    def objty(self, fr, k):
        if k[0] == fr.uid and type(k[1]) is int:
            return fr.fn.locals[k[1]]
        return None

    def mu(self, uid, path, ti):
        t = mk("mu", uid, path)
        self.defs[t] = (uid, path)
        return t

    def gen(self, a, b, uid, path, ti):
        """least general generalisation of a and b, a being the current (possibly generalised) head value"""
        if a is b:
            return a
        if a.op == "mu" and a.a[0] == uid:
            return a
        if a.op == "S" and b.op == "S":
            if a.a and type(a.a[-1]) is N and a.a[-1].op == "mu" and a.a[-1].a[0] == uid:
                pre = a.a[:-1]
                if b.a[:len(pre)] == pre:
                    return a
            # common prefix
            i = 0
            while i < len(a.a) and i < len(b.a) and a.a[i] == b.a[i]:
                i += 1
            pre = list(a.a[:i])
            if i < len(a.a) and i < len(b.a) and type(a.a[i]) is str and type(b.a[i]) is str:
                x, y = a.a[i], b.a[i]
                j = 0
                while j < len(x) and j < len(y) and x[j] == y[j]:
                    j += 1
                if j:
                    pre.append(x[:j])
            m = self.mu(uid, path + ("tail",), None)
            if ti is not None and self.T[ti]["k"] not in ("ref",):
                _typeof.setdefault(m, ti)
            else:
                _typeof.setdefault(m, self.P.tyname.get("str", ti))
            return S(*(pre + [m]))
        if a.op == "seq" and b.op == "seq":
            if a.a and a.a[-1].op == "q" and a.a[-1].a[0].op == "mu" and a.a[-1].a[0].a[0] == uid:
                pre = a.a[:-1]
                if b.a[:len(pre)] == pre:
                    return a
            i = 0
            while i < len(a.a) and i < len(b.a) and a.a[i] is b.a[i]:
                i += 1
            m = self.mu(uid, path + ("tail",), None)
            if ti is not None and self.elemty(ti) is not None:
                _typeof.setdefault(m, ti)
            else:
                for p in list(b.a) + list(a.a):
                    if p.op == "q" and p.a[0] in _typeof:
                        _typeof.setdefault(m, _typeof[p.a[0]])
                        break
            return seq(*(list(a.a[:i]) + [Q(m)]))
        if a.op == b.op and len(a.a) == len(b.a) and a.op in ("adt", "tup", "clo", "box", "it", "dyn", "e", "q", "rngit"):
            same = all((type(x) is N) == (type(y) is N) and (type(x) is N or x == y) for x, y in zip(a.a, b.a))
            if same:
                fts = None
                if a.op == "adt":
                    fts = [None, None] + [x[1] for x in self.T[a.a[0]]["variants"][a.a[1]]["fields"]]
                elif a.op == "tup" and ti is not None and self.T[ti]["k"] == "tuple":
                    fts = self.T[ti]["of"]
                return mk(a.op, *[self.gen(x, y, uid, path + (i,), fts[i] if fts else None) if type(x) is N else x
                                  for i, (x, y) in enumerate(zip(a.a, b.a))])
        if ti is None:
            ti = self.guess_ty(a) or self.guess_ty(b)
        m = self.mu(uid, path, ti)
        if ti is not None:
            _typeof.setdefault(m, ti)
            return self.symval(m, ti)
        return m

    def guess_ty(self, v):
        if v in _typeof:
            return _typeof[v]
        if v.op == "adt":
            return v.a[0]
        if v.op in ("i", "lin"):
            for k in lin_parts(v)[1]:
                if k in _typeof:
                    return _typeof[k]
        return None

    # ------------------------------------------------------------ blocks
    def block(self, fr, b, st):
        f = fr.fn
        self.nstates += 1
        if self.nstates > self.maxstates:
            raise Imprecise("state budget")
        blk = f.blocks[b]
        st = st.copy()
        uid = fr.uid
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fr, s[2])
                pl = s[1]
                if not pl[1]:
                    st.mem[(uid, pl[0])] = v
                else:
                    o, p, _ = self.place(st, fr, pl)
                    self.store(st, (o, p), v)
            elif k == "dead":
                st.mem.pop((uid, s[1]), None)
            elif k == "sd":
                o, p, ti = self.place(st, fr, s[1])
                v = self.load(st, (o, p))
                fs = ()
                if v.op == "part":
                    fs = [x[2] for x in v.a[0] if x[0] in (None, s[2])]
                self.store(st, (o, p), mk("adt", ti, s[2], *fs))
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [(None, st)]
        if k == "unreachable":
            return []
        if k in ("resume", "abort"):
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "assert":
            c = self.operand(st, fr, t[1])
            exp = bool(t[2])
            out = []
            for tr, s in self.fork(st, c):
                if tr == exp:
                    out.append((t[4], s))
                else:
                    self.panic(s, "assert:" + str(t[3]), fr, t)
            return out
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "call":
            return self.call(fr, b, st, t)
        raise Imprecise("terminator " + k)

    def panic(self, st, msg, fr, t):
        self.panics.append((st.copy(), msg, fr.fn.name if fr else "?", [f.name for f in self.stack]))

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t[1])
        ti = t[4]
        out = []
        if ti is not None and self.T[ti]["k"] == "bool":
            tt = {x[0]: x[1] for x in t[2]}
            for tr, s in self.fork(st, v):
                tgt = tt.get(int(tr), t[3])
                out.append((tgt, s))
            return out
        if v.op == "discr" or (v.op == "cast" and v.a[2].op == "discr"):
            d = v if v.op == "discr" else v.a[2]
            term = d.a[0]
            vs = self.T[_typeof[term]]["variants"]
            dv = {}
            bits = None
            for i, x in enumerate(vs):
                dv[x["discr"]] = i
            known = st.facts.get(("d", term))
            if known is None:
                known = frozenset(range(len(vs)))
            rest = set(known)
            bytgt = {}
            for val, tgt in t[2]:
                i = dv.get(val)
                if i is None:
                    # negative discriminants are dumped unsigned
                    for w in (8, 16, 32, 64, 128):
                        if val >= 1 << (w - 1) and val - (1 << w) in dv:
                            i = dv[val - (1 << w)]
                if i is not None and i in rest:
                    rest.discard(i)
                    bytgt.setdefault(tgt, set()).add(i)
            if rest:
                bytgt.setdefault(t[3], set()).update(rest)
            for tgt, vset in bytgt.items():
                if fr.fn.blocks[tgt]["t"][0] == "unreachable" and not fr.fn.blocks[tgt]["s"]:
                    continue
                # keep one state per variant so that reports stay per-variant
                for i in sorted(vset) if len(vset) <= 4 else [None]:
                    s = st.copy()
                    s.facts[("d", term)] = frozenset(vset if i is None else [i])
                    out.append((tgt, s))
            return out
        cur = st
        for val, tgt in t[2]:
            if ti is not None and self.T[ti]["k"] == "int" and self.T[ti]["signed"]:
                val = wrap(val, self.T[ti]["bits"], True)
            c = self.cond_in(v, iv(val, val)) if v.op in ("i",) + INTOPS or ti is not None and self.intty(ti) else mk("swc", v, val)
            s = self.assume(cur, c, True)
            if s is not None:
                out.append((tgt, s))
            cur = self.assume(cur, c, False)
            if cur is None:
                break
        if cur is not None:
            tb = fr.fn.blocks[t[3]]
            if not (tb["t"][0] == "unreachable" and not tb["s"]):
                out.append((t[3], cur))
        return out

    # ------------------------------------------------------------ calls
    def call(self, fr, b, st, t):
        _, callee, fop, args, dest, target, line, argtys, destty = t
        vals = [self.operand(st, fr, a) for a in args]
        cuid = self.uid("fr", fr.uid, b)
        if callee is None:
            fv = self.operand(st, fr, fop)
            if fv.op == "fn" and fv.a[0] is not None:
                outs = self.invoke(self.P.F[fv.a[0]], vals, st, cuid, argtys, destty, fr, None)
            elif fv.op == "clo":
                outs = self.call_value(st, fv, vals, cuid, fr, destty)
            else:
                outs = self.opaque_call("fnptr", [fv] + vals, st, argtys, destty, fr, cuid)
        elif callee.get("virt") is not None:
            outs = self.virtual(callee, vals, st, cuid, argtys, destty, fr)
        elif callee.get("fn") is None:
            outs = self.opaque_call(callee.get("decl") or "?", vals, st, argtys, destty, fr, cuid)
        else:
            outs = self.invoke(self.P.F[callee["fn"]], vals, st, cuid, argtys, destty, fr, callee)
        res = []
        for s, v in outs:
            if v is None:
                continue
            if target is None:
                continue
            if not dest[1]:
                s = s.copy()
                s.mem[(fr.uid, dest[0])] = v
            else:
                s = s.copy()
                o, p, _ = self.place(s, fr, dest)
                self.store(s, (o, p), v)
            res.append((target, s))
        return res

    def virtual(self, callee, vals, st, cuid, argtys, destty, fr):
        r = vals[0]
        idx = int(callee["virt"])
        v = r
        if v.op == "box":
            v = v.a[0]
        if v.op == "ref":
            v = self.load(st, (v.a[0], v.a[1])) if v.a[0][0] != "V" or v.a[1] or v.a[0][1].op == "dyn" else v
            if v.op == "box":
                v = v.a[0]
        if v.op == "ref" and v.a[0][0] == "V" and not v.a[1] and v.a[0][1].op == "*":
            v = v.a[0][1]
        if v.op == "*" and v.a[0].op == "dyn":
            v = v.a[0]
        if v.op == "dyn":
            slots = self.P.vt.get((v.a[0], v.a[1]))
            if slots is None:
                # box -> dyn: try pointee types
                pass
            if slots and idx in slots:
                f = self.P.F[slots[idx]]
                inner = v.a[2]
                if inner.op == "box":
                    inner = mk("ref", ("V", inner.a[0]), ())
                elif inner.op not in ("ref", "dyn"):
                    inner = mk("ref", ("V", inner), ())
                rest = vals[1:]
                if "{closure" in f.sname.split("::")[-1] and rest and rest[-1].op == "tup" and re.search(r"\bFn(Mut|Once)?\b.*::call", str(callee.get("decl"))):
                    rest = rest[:-1] + list(rest[-1].a)     # rust-call: the argument tuple is spread
                return self.invoke(f, [inner] + rest, st, cuid, argtys, destty, fr, None)
        return self.opaque_call("virtual:" + str(callee.get("decl")), vals, st, argtys, destty, fr, cuid)

    def user_model(self, f):
        m = self._umcache.get(f.id, 0)
        if m == 0:
            m = None
            for r, fn in self.user_models:
                if r.search(f.sname) or r.search(f.name):
                    m = fn
                    break
            self._umcache[f.id] = m
        return m

    def invoke(self, f, vals, st, cuid, argtys, destty, fr, callee):
        """-> [(st, value|None)]"""
        m = self.user_model(f)
        if m is not None:
            r = m(self, st, f, vals, argtys, destty, fr, cuid)
            if r is not None:
                return r
        m = self.M.lookup(f)
        if m is not None:
            r = m(self, st, f, vals, argtys, destty, fr, cuid)
            if r is not None:
                return r
        if f.kind == "intrinsic" or f.intr:
            r = self.M.intrinsic(self, st, f, vals, argtys, destty, fr, cuid)
            if r is not None:
                return r
        if f.blocks is None or f in self.stack or len(self.stack) > self.maxdepth or any(x.search(f.sname) for x in self.opaque):
            if f in self.stack and any(x.search(f.sname) for x in self.force) and self.stack.count(f) < self.maxrec and len(self.stack) <= self.maxdepth:
                pass
            else:
                return self.opaque_call(f.sname, vals, st, argtys, destty, fr, cuid, f)
        if f.argc != len(vals):
            # rust-call: spread trailing tuple / gather
            if vals and vals[-1].op == "tup" and f.argc == len(vals) - 1 + len(vals[-1].a):
                vals = vals[:-1] + list(vals[-1].a)
            elif f.spread is not None and f.argc == len(vals):
                pass
        elif f.kind == "item" and callee and f.sname.endswith("}") and "{closure" in f.sname.split("::")[-1]:
            if vals and vals[-1].op == "tup" and len(vals[-1].a) == 1 and self.closure_wants_spread(f, vals):
                vals = vals[:-1] + list(vals[-1].a)
        return self.run(f, vals, st, self.uid("call", cuid, f.id))

    def closure_wants_spread(self, f, vals):
        return True

    def call_value(self, st, fv, args, cuid, fr, destty=None):
        """call a closure / fn value with positional args"""
        v = fv
        selfarg = fv
        if v.op == "ref":
            v = self.load(st, (v.a[0], v.a[1]))
            while v.op == "ref":
                selfarg = v
                v = self.load(st, (v.a[0], v.a[1]))
        if v.op == "fn" and v.a[0] is not None:
            f = self.P.F[v.a[0]]
            return self.invoke(f, list(args), st, cuid, [f.locals[i + 1] for i in range(f.argc)] if f.locals else [None] * len(args),
                               f.locals[0] if f.locals else destty, fr, None)
        if v.op == "clo":
            f = self.closure_fn(v.a[0])
            if f is not None:
                at = self.T[f.locals[1]]
                if at["k"] == "ref":
                    if selfarg.op != "ref":
                        st = st.copy()
                        o = ("X", cuid, f.id)
                        st.mem[o] = v
                        selfarg = mk("ref", o, ())
                else:
                    selfarg = v
                return self.run(f, [selfarg] + list(args), st, self.uid("clo", cuid, f.id))
        return self.opaque_call("callvalue", [fv] + list(args), st, [None] * (1 + len(args)), destty, fr, cuid)

    def closure_fn(self, ti):
        c = getattr(self, "_clof", None)
        if c is None:
            c = self._clof = {}
            for f in self.P.F:
                if f.blocks is not None and f.argc >= 1 and "{closure" in f.defname.split("::")[-1]:
                    t = f.locals[1]
                    if self.T[t]["k"] == "ref":
                        t = self.T[t]["of"]
                    if self.T[t]["k"] == "closure":
                        c.setdefault(t, f)
        return c.get(ti)

    IMPURE = re.compile(r"^(std::(fs|io|process|env|thread|time)|<std::(fs|io)|<.* as std::io|clap|termcolor|uuid|chrono|image)|::write|::read|Instant|random|new_v4")

    def snapshot(self, st, v, depth=0):
        """replace references by the values they point to"""
        if v.op == "ref":
            x = self.load(st, (v.a[0], v.a[1]))
            if depth > 6:
                return x
            return self.snapshot(st, x, depth + 1)
        if v.op in ("adt", "tup", "clo", "box", "seq", "e", "dyn", "it"):
            if depth > 8:
                return v
            return mk(v.op, *[self.snapshot(st, x, depth + 1) if type(x) is N else x for x in v.a])
        return v

    def opaque_call(self, name, vals, st, argtys, destty, fr, cuid, f=None):
        self.used_opaque[name] = self.used_opaque.get(name, 0) + 1
        st = st.copy()
        if not (destty is not None and self.T[destty]["k"] == "never") and not any(x.search(name) for x in self.accepted):
            approximate(st, "call of " + name)
        snaps = [self.snapshot(st, v) for v in vals]
        app = mk("app", name, *snaps)
        if self.IMPURE.search(name):
            n = sum(1 for e in st.eff if e[0] == "call")
            app = mk("app", name, *(snaps + [mk("at", n, self.uid("imp", cuid))]))
            st.eff = st.eff + (("call", name, tuple(snaps), app),)
        elif any(x.search(name) for x in self.track):
            st.eff = st.eff + (("lcall", name, tuple(snaps), app),)
        if destty is not None and self.T[destty]["k"] == "never":
            self.panic(st, "diverge:" + name, fr, None)
            return []
        for i, (v, ti) in enumerate(zip(vals, argtys or [])):
            if ti is not None and self.T[ti]["k"] == "ref" and self.T[ti]["mut"] and v.op == "ref":
                of = self.T[ti]["of"]
                self.havoc(st, v, of, mk("out", i, app))
        r = self.symval(app, destty) if destty is not None else app
        return [(st, r)]

    def havoc(self, st, ref, of, term):
        if self.T[of]["k"] in ("closure", "fndef"):
            return
        self.store(st, (ref.a[0], ref.a[1]), self.symval(term, of))

    # ------------------------------------------------------------ entry point
    def analyse(self, f, args=None, st=None, names=None):
        """-> rows [(St, value)], panics"""
        self.panics = []
        st = st or St()
        if args is None:
            args = []
            argn = {}
            for n, p, ai in f.vars or []:
                if ai is not None:
                    argn[ai] = n
            for i in range(f.argc):
                nm = (names[i] if names else None) or argn.get(i + 1) or "a%d" % i
                args.append(self.sym(nm, f.locals[i + 1]))
        rows = self.run(f, args, st, self.uid("root", f.id))
        return rows
