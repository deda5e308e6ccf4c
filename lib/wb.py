"""Shared analyses over the resolved waterbear program: anchors, value builders, row helpers."""
import os
import re

import mir
import engine
from engine import Engine, St
from terms import *


class Anchor(Exception):
    pass


class WB:
    def __init__(self, dump):
        self.P = mir.Prog(dump)
        self.T = self.P.T
        self._ty = {}
        for k, t in self.T.items():
            self._ty.setdefault(t["s"], k)
        self._cache = {}

    # ---------------------------------------------------------------- anchors
    def ty(self, s):
        k = self._ty.get(s)
        if k is None:
            raise Anchor("type not found: " + s)
        return k

    def fn(self, name, sig=None):
        """function by resolved path; when it was renamed, by its (unique) signature"""
        f = self.P.find(name)
        if f is None and sig is not None:
            c = [g for g in self.P.F if g.blocks is not None and g.local and "{closure" not in g.name and self.sig(g) == sig]
            if len(c) == 1:
                f = c[0]
        if f is None:
            raise Anchor("function not found: " + name)
        return f

    def sig(self, f):
        return tuple(self.T[x]["s"] for x in f.locals[1:f.argc + 1]) + (self.T[f.locals[0]]["s"],)

    def bysig(self, *sig):
        return [g for g in self.P.F if g.blocks is not None and g.local and "{closure" not in g.name and self.sig(g) == sig]

    # ---------------------------------------------------------------- values
    def adt(self, s, v, *f):
        t = self.ty(s)
        i = self.P.variant(t, v)
        if i is None:
            raise Anchor("variant not found: %s::%s" % (s, v))
        n = len(self.T[t]["variants"][i]["fields"])
        if n != len(f):
            raise Anchor("variant %s::%s has %d fields, expected %d" % (s, v, n, len(f)))
        return mk("adt", t, i, *f)

    def struct(self, s, E, pre="", **kw):
        """struct value; unspecified fields are unknown symbols"""
        t = self.ty(s)
        fs = []
        names = [x[0] for x in self.T[t]["variants"][0]["fields"]]
        for k in kw:
            if k not in names:
                raise Anchor("struct %s has no field %s" % (s, k))
        for n, ft in self.T[t]["variants"][0]["fields"]:
            fs.append(kw[n] if n in kw else E.sym(pre + n, ft))
        return mk("adt", t, 0, *fs)

    def variants(self, t):
        return [v["name"] for v in self.T[t]["variants"]]

    def variant_fields(self, t, name):
        return self.T[t]["variants"][self.P.variant(t, name)]["fields"]

    def field_ty(self, s, name):
        for n, ft in self.T[self.ty(s)]["variants"][0]["fields"]:
            if n == name:
                return ft
        raise Anchor("struct %s has no field %s" % (s, name))

    def vname(self, v):
        """'Type::Variant' of an adt value"""
        if v.op != "adt":
            return None
        t = self.T[v.a[0]]
        return t["name"].split("::")[-1] + "::" + t["variants"][v.a[1]]["name"]

    def variant(self, v):
        return self.T[v.a[0]]["variants"][v.a[1]]["name"] if v.op == "adt" else None

    def engine(self, **kw):
        return Engine(self.P, **kw)

    def sp(self, E, n="span"):
        return E.sym(n, self.ty("location::Span"))

    def sref(self, v):
        return mk("ref", ("V", v), ())


OPAQUE_EXPR = [r"Expr::eval$", r"Positioned>?::span$", r"as waterbear::location::Positioned>::span$"]
FROMERR = r"AssemblyError as std::convert::From>::from$"


def opname(n):
    return n.a[0].split("::")[-1] if n.op == "app" else None


def subterms(n, seen=None):
    seen = set() if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if type(x) is not N:
            if type(x) is tuple:
                st.extend(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.a)


def facts(st):
    return {"%s %s" % (k[0], pretty(k[1]) if isinstance(k[1], N) else k[1]): (sorted(v) if isinstance(v, frozenset) else v) for k, v in st.facts.items()}


def refute(st, atom, values, fn):
    """a value of the atom that the path's facts allow (all that mention it must be functions of it) and for which fn(env) holds; None when there is none"""
    for v in values:
        env = {atom: v}
        ok = True
        for k, f in st.facts.items():
            if k[0] == "r" and isinstance(k[1], N):
                x = engine.evalc(k[1], env)
                if x is None and atom in subterms(k[1]):
                    return None
                if x is not None and x not in f:
                    ok = False
                    break
        if ok and fn(env):
            return v
    return None


# ---------------------------------------------------------------- bit slices
def bits(t, w, E=None, st=None):
    """two's complement bits of integer term t, lsb first, up to width w.
    each is 0, 1, ('b', atom, k) or ('x', frozenset of bits) for exclusive-or, or None when not expressible"""
    o, a = t.op, t.a
    if o == "i":
        return [(a[0] >> k) & 1 for k in range(w)]
    if o in ("and", "or", "xor"):
        x, y = bits(a[0], w, E, st), bits(a[1], w, E, st)
        out = [bop(o, p, q) for p, q in zip(x, y)]
        f = st.facts.get(("r", t)) if st is not None else None
        if f is not None and not f.empty() and f.lo() >= 0 and f.hi() < INF:
            n = f.hi().bit_length()
            out = [p if k < n else 0 for k, p in enumerate(out)]
        return out
    if o == "bnot":
        return [bnot(p) for p in bits(a[0], w, E, st)]
    if o == "shl" and a[1].op == "i":
        k = a[1].a[0]
        bw, sg = a[2], a[3]
        x = ([0] * k + bits(a[0], max(bw - k, 0), E, st))[:bw]
        return ext(x, w, sg)
    if o == "shr" and a[1].op == "i":
        k = a[1].a[0]
        return bits(a[0], w + k, E, st)[k:]
    if o == "cast":
        out = ext(bits(a[2], a[0], E, st), w, a[1])
        f = st.facts.get(("r", t)) if st is not None else None
        if f is not None and not f.empty() and f.lo() >= 0 and f.hi() < INF:
            n = f.hi().bit_length()
            out = [p if k < n else 0 for k, p in enumerate(out)]
        return out
    if o == "wrap":
        b, sg = E.intty(a[0])
        return ext(bits(a[1], b, E, st), w, sg)
    if o == "lin":
        c, d = lin_parts(t)
        # k * 2^n and disjoint sums
        if c == 0 and len(d) == 1:
            (at, k), = d.items()
            if k > 0 and k & (k - 1) == 0:
                n = k.bit_length() - 1
                return ([0] * n + bits(at, max(w - n, 0), E, st))[:w]
        if c >= 0 and all(k > 0 and k & (k - 1) == 0 for k in d.values()):
            acc = [(c >> k) & 1 for k in range(w)]
            ok = True
            for at, k in d.items():
                n = k.bit_length() - 1
                b = ([0] * n + bits(at, max(w - n, 0), E, st))[:w]
                for i in range(w):
                    if acc[i] == 0:
                        acc[i] = b[i]
                    elif b[i] != 0:
                        ok = False
            if ok:
                return acc
    # atom: its own bits; a known non-negative bounded range gives leading zeros
    out = [("b", t, k) for k in range(w)]
    if E is not None:
        r = E.rng(st, t)
        if not r.empty() and r.lo() >= 0 and r.hi() < INF:
            n = r.hi().bit_length()
            out = [x if k < n else 0 for k, x in enumerate(out)]
        elif not r.empty() and r.lo() > -INF and r.hi() < INF:
            n = max(r.hi().bit_length(), (-r.lo() - 1).bit_length() if r.lo() < 0 else 0)
            out = [x if k < n else ("b", t, n) for k, x in enumerate(out)]
    return out


def ext(x, w, sg):
    if len(x) >= w:
        return x[:w]
    top = x[-1] if sg and x else 0
    return x + [top] * (w - len(x))


def bnot(p):
    if p is None:
        return None
    if p in (0, 1):
        return 1 - p
    return bop("xor", p, 1)


def bop(o, p, q):
    if o == "and":
        if p == 0 or q == 0:
            return 0
        if p == 1:
            return q
        if q == 1 or p == q:
            return p
        return None
    if o == "or":
        if p == 1 or q == 1:
            return 1
        if p == 0:
            return q
        if q == 0 or p == q:
            return p
        return None
    if p is None or q is None:
        return None
    def sx(z):
        if z == 0:
            return frozenset()
        if z == 1:
            return frozenset([1])
        if z[0] == "x":
            return z[1]
        return frozenset([z])
    s = sx(p) ^ sx(q)
    if not s:
        return 0
    if len(s) == 1:
        return next(iter(s))
    return ("x", s)


def unset(v):
    """strip set(...) layers of a sequence: -> (base, [(index, value)]) oldest first"""
    st = []
    while True:
        if v.op == "seq" and len(v.a) == 1 and v.a[0].op == "q" and v.a[0].a[0].op == "set":
            v = v.a[0].a[0]
        if v.op == "set":
            st.append((v.a[1], v.a[2]))
            v = v.a[0]
        else:
            break
    return v, st[::-1]


def sfact(st, name):
    """(True, literal) / (False, excluded) / None for the string symbol `name`"""
    ks = [("s", name)]
    if name.op == "S" and len(name.a) == 1:
        ks.append(("s", name.a[0]))
    for k in ks:
        if k in st.facts:
            return st.facts[k]
    return None
