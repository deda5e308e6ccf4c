"""Abstract transfer functions for the standard-library (and a few third-party) operations."""
import re

from terms import *
import engine as G

REG = []
_cache = {}


def model(*pats):
    def d(fn):
        for p in pats:
            REG.append((re.compile(p), fn))
        return fn
    return d


def lookup(f):
    m = _cache.get(f.name, 0)
    if m == 0:
        m = None
        for r, fn in REG:
            if r.search(f.sname):
                m = fn
                break
        _cache[f.name] = m
    return m


# ---------------------------------------------------------------- helpers
def variant(E, ti, name):
    return E.P.variant(ti, name)


def some(E, ti, v):
    return mk("adt", ti, E.P.variant(ti, "Some"), v)


def none(E, ti):
    return mk("adt", ti, E.P.variant(ti, "None"))


def ok(E, ti, v):
    return mk("adt", ti, E.P.variant(ti, "Ok"), v)


def err(E, ti, v):
    return mk("adt", ti, E.P.variant(ti, "Err"), v)


def inner(E, ti, i=0):
    a = E.T[ti]["args"]
    return a[i] if i < len(a) else None


def dv(E, st, v):
    """follow references"""
    n = 0
    while v.op in ("ref",) and n < 8:
        v = E.load(st, (v.a[0], v.a[1]))
        n += 1
    return v


def ref(v):
    if v.op == "S":
        return v
    return mk("ref", ("V", v), ())


def pointee_ty(E, ti):
    while ti is not None and E.T[ti]["k"] in ("ref", "ptr"):
        ti = E.T[ti]["of"]
    return ti


def setref(E, st, r, v):
    if r.op == "ref":
        E.store(st, (r.a[0], r.a[1]), v)


def S_of(E, st, v):
    v = dv(E, st, v)
    if v.op == "box":
        v = v.a[0]
    if v.op == "S":
        return v
    if v.op == "seq":
        return None
    return None


# ---------------------------------------------------------------- strings
_fresh = {}


def fresh(t):
    """the fresh-identifier call a string part is made of, or None"""
    r = _fresh.get(t.id, 0)
    if r == 0:
        r = None
        if t.op == "app" and "new_v4" in t.a[0]:
            r = t
        else:
            for x in t.a:
                if type(x) is N:
                    r = fresh(x)
                    if r is not None:
                        break
        _fresh[t.id] = r
    return r


def streq(E, a, b):
    if a is b:
        return TRUE
    la, lb = lit(a), lit(b)
    if la is not None and lb is not None:
        return I(int(la == lb))
    if la is not None:
        a, b, la, lb = b, a, lb, la
    if lb is not None and len(a.a) == 1:
        return mk("streq", a.a[0], lb)
    # literal prefix / suffix mismatch
    if lb is not None:
        if a.a and type(a.a[0]) is str and not lb.startswith(a.a[0]):
            return FALSE
        if a.a and type(a.a[-1]) is str and not lb.endswith(a.a[-1]):
            return FALSE
        mn = sum(len(x) for x in a.a if type(x) is str)
        if mn > len(lb):
            return FALSE
    pa, pb = list(a.a), list(b.a)
    while pa and pb:
        p, q = pa[0], pb[0]
        if p is q or (type(p) is str and p == q):
            pa.pop(0), pb.pop(0)
        elif type(p) is str and type(q) is str:
            n = min(len(p), len(q))
            if p[:n] != q[:n]:
                return FALSE
            if len(p) == n:
                pa.pop(0)
                pb[0] = q[n:]
            else:
                pb.pop(0)
                pa[0] = p[n:]
        else:
            break
    while pa and pb:
        p, q = pa[-1], pb[-1]
        if p is q or (type(p) is str and p == q):
            pa.pop(), pb.pop()
        elif type(p) is str and type(q) is str:
            n = min(len(p), len(q))
            if p[-n:] != q[-n:]:
                return FALSE
            if len(p) == n:
                pa.pop()
                pb[-1] = q[:-n]
            else:
                pb.pop()
                pa[-1] = p[:-n]
        else:
            break
    if not pa and not pb:
        return TRUE
    if not pa or not pb:
        if any(type(x) is str for x in pa + pb):
            return FALSE
    elif len(pa) == 1 and len(pb) == 1:
        # two different freshly generated identifiers never coincide
        if type(pa[0]) is N and type(pb[0]) is N and fresh(pa[0]) and fresh(pb[0]) and fresh(pa[0]) is not fresh(pb[0]):
            return FALSE
    fa, fb = [fresh(x) for x in a.a if type(x) is N and fresh(x)], [fresh(x) for x in b.a if type(x) is N and fresh(x)]
    if bool(fa) != bool(fb):
        # a freshly generated identifier coincides with no other text
        if all(type(x) is str or fresh(x) or x.op == "sym" for x in a.a + b.a):
            return FALSE
    x, y = (a, b) if a.id < b.id else (b, a)
    return mk("streqg", x, y)


@model(r"^core::str::traits::eq$", r"^std::string::eq$", r"^<std::string::String as std::cmp::PartialEq>::eq$", r"^<str as std::cmp::PartialEq>::eq$",
       r"^alloc::string::String as .*PartialEq", r"^<&?str as std::cmp::PartialEq>::eq$", r"^std::string::String::eq$",
       r"^<std::string::String as std::cmp::PartialEq>::ne$", r"^core::str::traits::ne$")
def m_streq(E, st, f, vals, at, dt, fr, uid):
    a, b = S_of(E, st, vals[0]), S_of(E, st, vals[1])
    if a is None or b is None:
        return None
    c = streq(E, a, b)
    if f.sname.endswith("ne"):
        c = G.neg_cond(c)
    return [(st, c)]


@model(r"^<std::string::String as std::ops::Deref>::deref$", r"^std::string::String::as_str$", r"^core::str::as_ref$",
       r"^<str as std::borrow::ToOwned>::to_owned$", r"^std::str::to_owned$", r"^<std::string::String as std::borrow::ToOwned>",
       r"^<std::string::String as std::convert::(AsRef|From|Borrow)", r"^<&?str as std::convert::(Into|From|AsRef)",
       r"^<std::string::String as std::clone::Clone>::clone$", r"^<str as std::string::ToString>", r"^<std::string::String as std::borrow::Borrow",
       r"^std::str::into_string$", r"^std::string::String::into_boxed_str", r"^core::str::traits::to_string",
       r"^<std::string::String as std::ops::Index>::index$", r"^core::str::to_string$")
def m_sid(E, st, f, vals, at, dt, fr, uid):
    if len(vals) == 2:
        return m_strindex(E, st, f, vals, at, dt, fr, uid)
    s = S_of(E, st, vals[0])
    return None if s is None else [(st, s)]


@model(r"^std::string::String::new$", r"^std::string::String::with_capacity$", r"^<std::string::String as std::default::Default>")
def m_snew(E, st, f, vals, at, dt, fr, uid):
    return [(st, S(""))]


@model(r"^std::string::String::push_str$", r"^<std::string::String as std::ops::AddAssign>::add_assign$")
def m_push_str(E, st, f, vals, at, dt, fr, uid):
    a, b = S_of(E, st, vals[0]), S_of(E, st, vals[1])
    if a is None or b is None:
        return None
    st = st.copy()
    setref(E, st, vals[0], S(a, b))
    return [(st, UNIT)]


@model(r"^std::string::String::push$")
def m_push_char(E, st, f, vals, at, dt, fr, uid):
    a = S_of(E, st, vals[0])
    if a is None:
        return None
    st = st.copy()
    setref(E, st, vals[0], S(a, chr_s(vals[1])))
    return [(st, UNIT)]


def chr_s(c):
    if c.op == "i":
        return chr(c.a[0])
    return mk("chr", c)


@model(r"^<std::string::String as std::ops::Add>::add$")
def m_sadd(E, st, f, vals, at, dt, fr, uid):
    a, b = S_of(E, st, vals[0]), S_of(E, st, vals[1])
    if a is None or b is None:
        return None
    return [(st, S(a, b))]


@model(r"^core::str::len$", r"^std::string::String::len$")
def m_slen(E, st, f, vals, at, dt, fr, uid):
    s = S_of(E, st, vals[0])
    return None if s is None else [(st, E.length(s))]


@model(r"^core::str::is_empty$", r"^std::string::String::is_empty$")
def m_sempty(E, st, f, vals, at, dt, fr, uid):
    s = S_of(E, st, vals[0])
    if s is None:
        return None
    if len(s.a) == 1 and type(s.a[0]) is N:
        return [(st, mk("streq", s.a[0], ""))]
    return [(st, E.cond_in(E.length(s), iv(0, 0)))]


@model(r"^core::str::(starts_with|ends_with|contains)$")
def m_starts(E, st, f, vals, at, dt, fr, uid):
    s = S_of(E, st, vals[0])
    p = vals[1]
    p = chr_s(p) if p.op == "i" else dv(E, st, p)
    if type(p) is N:
        p = lit(p) if p.op == "S" else None
    if s is None or p is None:
        return None
    which = f.sname.split("::")[-1]
    l = lit(s)
    if l is not None:
        r = l.startswith(p) if which == "starts_with" else l.endswith(p) if which == "ends_with" else p in l
        return [(st, I(int(r)))]
    if which == "starts_with" and s.a and type(s.a[0]) is str:
        h = s.a[0]
        if len(h) >= len(p):
            return [(st, I(int(h.startswith(p))))]
        if not p.startswith(h):
            return [(st, FALSE)]
    if which == "ends_with" and s.a and type(s.a[-1]) is str and len(s.a[-1]) >= len(p):
        return [(st, I(int(s.a[-1].endswith(p))))]
    if which == "starts_with" and len(s.a) == 1 and s.a[0].op == "smap" and s.a[0].a[0] == "to_lowercase" and s.a[0].a[1].op != "S" and p in (".", "%"):
        s = S(s.a[0].a[1])
    return [(st, mk(which, s, p))]


@model(r"^std::str::(to_lowercase|to_uppercase)$", r"^core::str::(trim|trim_end|trim_start)$", r"^core::str::to_ascii_(lower|upper)case$",
       r"^std::str::to_ascii_(lower|upper)case$")
def m_smap(E, st, f, vals, at, dt, fr, uid):
    s = S_of(E, st, vals[0])
    if s is None:
        return None
    nm = f.sname.split("::")[-1].replace("_ascii", "")
    l = lit(s)
    if nm == "to_lowercase" and all(type(p) is str and p == p.lower() or type(p) is N and (p in E.lower or fresh(p)) for p in s.a):
        return [(st, s)]
    if l is not None:
        r = {"to_lowercase": l.lower(), "to_uppercase": l.upper(), "trim": l.strip(), "trim_end": l.rstrip(), "trim_start": l.lstrip(),
             "to_lower": l.lower(), "to_upper": l.upper(), "to_lowercase_ascii": l.lower()}.get(nm)
        if r is not None:
            return [(st, S(r))]
    if nm in ("to_lowercase", "to_uppercase"):
        parts = []
        for p in s.a:
            if type(p) is str:
                parts.append(p.lower() if nm == "to_lowercase" else p.upper())
            elif p.op == "smap" and p.a[0] == nm:
                parts.append(p)
            elif p.op == "disp" and E_disp_numeric(p):
                parts.append(p)
            elif nm == "to_lowercase" and fresh(p):
                parts.append(p)     # generated identifiers are printed in lower case
            else:
                parts.append(mk("smap", nm, p))
        return [(st, S(*parts))]
    if len(s.a) == 1 and type(s.a[0]) is N and s.a[0].op == "smap" and s.a[0].a[0] == nm:
        return [(st, s)]
    return [(st, S(mk("smap", nm, s.a[0] if len(s.a) == 1 else s)))]


def E_disp_numeric(p):
    return p.a[1].startswith("d")


@model(r"^core::str::as_bytes$", r"^std::string::String::as_bytes$", r"^core::str::bytes$", r"^std::string::String::into_bytes$")
def m_asbytes(E, st, f, vals, at, dt, fr, uid):
    s = S_of(E, st, vals[0])
    if s is None:
        return None
    q = s_bytes(s)
    if f.sname.endswith("::bytes"):
        return [(st, mk("it", "val", q, I(0)))]
    if f.sname.endswith("into_bytes"):
        return [(st, q)]
    return [(st, ref(q))]


def s_bytes(s):
    parts = []
    for p in s.a:
        if type(p) is str:
            parts += [E_(b) for b in p.encode()]
        elif p.op == "byte":
            parts.append(mk("e", p.a[0]))
        else:
            t = mk("bytes", p)
            parts.append(Q(t))
    return seq(*parts)


def E_(b):
    return mk("e", I(b))


@model(r"^core::str::chars$")
def m_chars(E, st, f, vals, at, dt, fr, uid):
    s = S_of(E, st, vals[0])
    if s is None:
        return None
    parts = []
    for p in s.a:
        if type(p) is str:
            parts += [E_(ord(b)) for b in p]
        elif p.op == "chr":
            parts.append(mk("e", p.a[0]))
        else:
            parts.append(Q(mk("chars", p)))
    return [(st, mk("it", "val", seq(*parts), I(0)))]


@model(r"^core::str::traits::index$", r"^core::str::index$", r"^core::str::traits::get$")
def m_strindex(E, st, f, vals, at, dt, fr, uid):
    s = S_of(E, st, vals[0])
    if s is None:
        return None
    r = dv(E, st, vals[1])
    nm = E.T[r.a[0]]["name"].split("::")[-1] if r.op == "adt" else None
    if nm is None:
        return None
    if nm == "RangeFull":
        return [(st, s)]
    lo, hi = I(0), E.length(s)
    if nm in ("Range", "RangeInclusive"):
        lo, hi = r.a[2], r.a[3]
        if nm == "RangeInclusive":
            hi = add(hi, I(1))
    elif nm == "RangeFrom":
        lo = r.a[2]
    elif nm == "RangeTo":
        hi = r.a[2]
    elif nm == "RangeToInclusive":
        hi = add(r.a[2], I(1))
    l = lit(s)
    if l is not None and lo.op == "i" and hi.op == "i":
        b = l.encode()
        if 0 <= lo.a[0] <= hi.a[0] <= len(b):
            return [(st, S(b[lo.a[0]:hi.a[0]].decode("utf8", "replace")))]
    if lo.op == "i" and lo.a[0] == 0 and hi is E.length(s):
        return [(st, s)]
    t = mk("sub", E.term_of(s), lo, hi)
    out = [(st, S(t))]
    # the slice panics when out of range
    return out


@model(r"^std::str::replace$")
def m_replace(E, st, f, vals, at, dt, fr, uid):
    s, a, b = S_of(E, st, vals[0]), S_of(E, st, vals[1]) if vals[1].op != "i" else S(chr(vals[1].a[0])), S_of(E, st, vals[2])
    if s is None or a is None or b is None:
        return None
    l, la, lb = lit(s), lit(a), lit(b)
    if None not in (l, la, lb):
        return [(st, S(l.replace(la, lb)))]
    return [(st, S(mk("replace", s, a, b)))]


# ---------------------------------------------------------------- clone & friends
@model(r" as std::clone::Clone>::clone$", r"^std::clone::impls::clone$", r"^std::slice::to_vec$", r"^std::borrow::Cow::into_owned",
       r"^hashbrown::map::HashMap as std::clone::Clone", r"^std::option::Option::cloned$", r"^std::option::Option::copied$",
       r" as std::borrow::ToOwned>::to_owned$", r"^std::slice::to_owned$")
def m_clone(E, st, f, vals, at, dt, fr, uid):
    v = vals[0]
    if f.sname.endswith(("cloned", "copied")):
        if v.op == "adt":
            if len(v.a) == 3:
                x = dv(E, st, v.a[2])
                return [(st, some(E, dt, x))]
            return [(st, none(E, dt))]
        return None
    if v.op == "ref":
        r = E.load(st, (v.a[0], v.a[1]))
        # clone of T through &T : one level
        return [(st, r)]
    if v.op in ("S", "seq"):
        return [(st, v)]
    return None


# ---------------------------------------------------------------- vec / slice
@model(r"^std::vec::Vec::new$", r"^std::vec::Vec::with_capacity$", r"^<std::vec::Vec as std::default::Default>")
def m_vnew(E, st, f, vals, at, dt, fr, uid):
    return [(st, seq())]


@model(r"^std::vec::Vec::push$")
def m_vpush(E, st, f, vals, at, dt, fr, uid):
    v = dv(E, st, vals[0])
    if v.op != "seq":
        return None
    st = st.copy()
    setref(E, st, vals[0], seq(v, mk("e", vals[1])))
    return [(st, UNIT)]


@model(r"^std::vec::Vec::append$", r"^std::vec::Vec::extend_from_slice$", r"^<std::vec::Vec as std::iter::Extend>::extend$")
def m_vappend(E, st, f, vals, at, dt, fr, uid):
    v = dv(E, st, vals[0])
    w = dv(E, st, vals[1])
    outs = [(st, w)]
    if w.op != "seq":
        outs = drain(E, st, vals[1], fr, uid)
        if outs is None:
            return None
    res = []
    for s, w in outs:
        if v.op != "seq" or w.op != "seq":
            return None
        s = s.copy()
        setref(E, s, vals[0], seq(v, w))
        if f.sname.endswith("append"):
            setref(E, s, vals[1], seq())
        res.append((s, UNIT))
    return res


@model(r"^std::vec::Vec::clear$")
def m_vclear(E, st, f, vals, at, dt, fr, uid):
    st = st.copy()
    setref(E, st, vals[0], seq())
    return [(st, UNIT)]


@model(r"^std::vec::Vec::pop$")
def m_vpop(E, st, f, vals, at, dt, fr, uid):
    v = dv(E, st, vals[0])
    if v.op == "seq" and not v.a:
        return [(st, none(E, dt))]
    if v.op == "seq" and v.a[-1].op == "e":
        st = st.copy()
        setref(E, st, vals[0], seq(*v.a[:-1]))
        return [(st, some(E, dt, v.a[-1].a[0]))]
    return None


@model(r"^std::vec::Vec::truncate$")
def m_vtrunc(E, st, f, vals, at, dt, fr, uid):
    v = dv(E, st, vals[0])
    n = vals[1]
    if v.op == "seq":
        c = seq_concrete(v)
        st = st.copy()
        if c is not None and n.op == "i":
            setref(E, st, vals[0], seq(*v.a[:n.a[0]]))
            return [(st, UNIT)]
        if len(v.a) == 1 and v.a[0].op == "rep":
            pass
        d = sub(E.length(v), n)
        r = E.rng(st, d)
        if not r.empty() and r.hi() <= 0:
            return [(st, UNIT)]
    return None


@model(r"^std::vec::from_elem$")
def m_from_elem(E, st, f, vals, at, dt, fr, uid):
    return [(st, seq(mk("rep", vals[0], vals[1])))]


@model(r"^std::vec::Vec::resize$")
def m_resize(E, st, f, vals, at, dt, fr, uid):
    v = dv(E, st, vals[0])
    if v.op != "seq":
        return None
    d = sub(vals[1], E.length(v))
    r = E.rng(st, d)
    if not r.empty() and r.lo() >= 0:
        st = st.copy()
        setref(E, st, vals[0], seq(v, mk("rep", vals[2], d)))
        return [(st, UNIT)]
    return None


@model(r"^std::vec::Vec::len$", r"^core::slice::len$", r"^std::collections::(Hash|BTree)(Map|Set)::len$", r"^hashbrown::map::HashMap::len$")
def m_vlen(E, st, f, vals, at, dt, fr, uid):
    v = dv(E, st, vals[0])
    if v.op == "map" and v.a[0] == "empty":
        if all_distinct(E, st, v):
            return [(st, I(len(v.a) - 1))]
    return [(st, E.length(v))]


@model(r"^std::vec::Vec::is_empty$", r"^core::slice::is_empty$", r"^std::collections::(Hash|BTree)(Map|Set)::is_empty$", r"^hashbrown::map::HashMap::is_empty$")
def m_vempty(E, st, f, vals, at, dt, fr, uid):
    v = dv(E, st, vals[0])
    if v.op == "map" and v.a[0] == "empty":
        return [(st, I(int(len(v.a) == 1)))]
    return [(st, E.cond_in(E.length(v), iv(0, 0)))]


@model(r"^<std::vec::Vec as std::ops::Deref(Mut)?>::deref(_mut)?$", r"^std::vec::Vec::as_(mut_)?slice$", r"^<std::vec::Vec as std::convert::AsRef",
       r"^std::boxed::box_assume_init_into_vec_unsafe$", r"^std::slice::into_vec$", r"^<\[?.*\]? as std::convert::AsRef>::as_ref$",
       r"^<std::vec::Vec as std::borrow::Borrow")
def m_vderef(E, st, f, vals, at, dt, fr, uid):
    v = vals[0]
    if v.op == "hbox":
        return [(st, E.load(st, (v.a[0], ())))]
    if v.op == "box":
        return [(st, v.a[0])]
    if v.op == "ref":
        x = E.load(st, (v.a[0], v.a[1]))
        if x.op == "ref" or x.op == "S":
            return [(st, x)]
        if f.sname.startswith("<std::vec") or f.sname.startswith("std::vec") or x.op == "seq":
            return [(st, v)]
    return None


@model(r"^std::boxed::Box::new_uninit$")
def m_newuninit(E, st, f, vals, at, dt, fr, uid):
    st = st.copy()
    o = ("H", uid)
    st.mem[o] = mk("uninit")
    return [(st, mk("hbox", o))]


@model(r"^std::boxed::Box::new$")
def m_boxnew(E, st, f, vals, at, dt, fr, uid):
    return [(st, mk("box", vals[0]))]


@model(r"^<std::boxed::Box as std::(ops::Deref|convert::AsRef|borrow::Borrow)>")
def m_boxderef(E, st, f, vals, at, dt, fr, uid):
    v = dv(E, st, vals[0])
    if v.op == "box":
        return [(st, ref(v.a[0]))]
    return None


def bounds_fork(E, st, v, i, fr):
    """-> list of in-range states; records the out-of-range panic"""
    n = E.length(v)
    d = sub(n, i)
    c = E.cond_in(d, iv(1, INF))
    outs = []
    for tr, s in E.fork(st, c):
        if tr:
            outs.append(s)
        else:
            E.panic(s, "index out of bounds", fr, None)
    return outs


@model(r"^<std::vec::Vec as std::ops::Index(Mut)?>::index(_mut)?$", r"^core::slice::index::index(_mut)?$", r"^<\[.*\] as std::ops::Index(Mut)?>::index(_mut)?$",
       r"^core::array::index(_mut)?$", r"^core::array::index::index(_mut)?$")
def m_vindex(E, st, f, vals, at, dt, fr, uid):
    r0, i = vals
    if i.op in ("ref",):
        return None
    v = dv(E, st, r0)
    if v.op not in ("seq",):
        return None
    if i.op == "adt":
        return slice_range(E, st, r0, v, i, dt, fr)
    loc = (r0.a[0], r0.a[1]) if r0.op == "ref" else (("V", v), ())
    while True:
        x = E.load(st, loc)
        if x.op == "ref":
            loc = (x.a[0], x.a[1])
        else:
            break
    return [(s, mk("ref", loc[0], loc[1] + (("ix", i),))) for s in bounds_fork(E, st, v, i, fr)]


def range_bounds(E, v, r):
    nm = E.T[r.a[0]]["name"].split("::")[-1]
    lo, hi = I(0), E.length(v)
    if nm in ("Range", "RangeInclusive"):
        lo, hi = r.a[2], r.a[3]
        if nm == "RangeInclusive":
            hi = add(hi, I(1))
    elif nm == "RangeFrom":
        lo = r.a[2]
    elif nm == "RangeTo":
        hi = r.a[2]
    elif nm == "RangeToInclusive":
        hi = add(r.a[2], I(1))
    elif nm != "RangeFull":
        return None
    return lo, hi


def slice_range(E, st, r0, v, r, dt, fr):
    b = range_bounds(E, v, r)
    if b is None:
        return None
    lo, hi = b
    outs = []
    loc = target(E, st, r0) if dt is not None and E.T[dt]["k"] == "ref" and E.T[dt]["mut"] else None
    c1 = E.cond_in(sub(hi, lo), iv(0, INF))
    c2 = E.cond_in(sub(E.length(v), hi), iv(0, INF))
    for tr, s in E.fork(st, c1):
        if not tr:
            E.panic(s, "slice order", fr, None)
            continue
        for tr2, s2 in E.fork(s, c2):
            if not tr2:
                E.panic(s2, "slice out of bounds", fr, None)
                continue
            outs.append((s2, mk("ref", loc[0], loc[1] + (("sl", lo, hi),)) if loc is not None and split_at(E, s2, v, lo) is not None and split_at(E, s2, v, hi) is not None
                         else ref(subseq(E, s2, v, lo, hi))))
    return outs


def target(E, st, r):
    """location a chain of references ends at"""
    loc = None
    while r.op == "ref":
        loc = (r.a[0], r.a[1])
        r = E.load(st, loc)
    return loc


def split_at(E, st, v, i):
    """([parts before position i], [parts after]) or None when the position cannot be located"""
    parts = list(v.a)
    left = []
    pos = I(0)
    if i.op == "i" and 0 <= i.a[0] <= len(parts) and all([p.op == "e" for p in parts[:i.a[0]]]):
        return parts[:i.a[0]], parts[i.a[0]:]
    while True:
        d = sub(i, pos)
        r = E.rng(st, d)
        if r == iv(0, 0) or d is I(0):
            return left, parts
        if not parts or r.empty() or r.lo() < 0:
            return None
        p = parts[0]
        if p.op == "e":
            if r.lo() < 1:
                return None
            left.append(parts.pop(0))
            pos = add(pos, I(1))
        elif p.op == "rep":
            rest = sub(p.a[1], d)
            rr = E.rng(st, rest)
            if rr.empty():
                return None
            if rr.hi() <= 0:
                left.append(parts.pop(0))
                pos = add(pos, p.a[1])
            elif rr.lo() >= 0:
                parts.pop(0)
                return left + [mk("rep", p.a[0], d)], [mk("rep", p.a[0], rest)] + parts
            else:
                return None
        else:
            return None


def splice(E, st, v, lo, hi, mid):
    """the sequence with the elements in lo..hi replaced"""
    a = split_at(E, st, v, lo)
    b = split_at(E, st, v, hi)
    if a is None or b is None or mid.op != "seq":
        raise G.Imprecise("update of a part of a sequence")
    return seq(*a[0], *mid.a, *b[1])


def subseq(E, st, v, lo, hi):
    a, b = split_at(E, st, v, lo), split_at(E, st, v, hi)
    if a is not None and b is not None:
        w = seq(*b[0])
        c = split_at(E, st, w, lo)
        if c is not None:
            return seq(*c[1])
    parts = list(v.a)
    full = E.length(v)
    if lo.op == "i" and hi is full:
        k = lo.a[0]
        while k > 0 and parts and parts[0].op == "e":
            parts.pop(0)
            k -= 1
        if k == 0:
            return seq(*parts)
        if len(parts) == 1 and parts[0].op == "q":
            t = mk("drop", parts[0].a[0], I(k))
            x = G.tyof(parts[0].a[0])
            if x is not None:
                G._typeof.setdefault(t, x)
            return seq(Q(t))
    c = seq_concrete(v)
    if c is not None and lo.op == "i" and hi.op == "i" and 0 <= lo.a[0] <= hi.a[0] <= len(c):
        return seq(*parts[lo.a[0]:hi.a[0]])
    if lo.op == "i" and hi.op == "i" and len(parts) == 1 and parts[0].op == "q" and hi.a[0] - lo.a[0] <= 64:
        return seq(*[mk("e", E.elem(st, v, I(k))) for k in range(lo.a[0], hi.a[0])])
    t = mk("subseq", v, lo, hi)
    if len(parts) == 1 and parts[0].op == "q" and G.tyof(parts[0].a[0]) is not None:
        G._typeof.setdefault(t, G.tyof(parts[0].a[0]))
    return seq(Q(t))


@model(r"^core::slice::(get|first|last)$", r"^std::vec::Vec::(get|first|last)$")
def m_get(E, st, f, vals, at, dt, fr, uid):
    v = dv(E, st, vals[0])
    which = f.sname.split("::")[-1]
    if v.op != "seq":
        return None
    n = E.length(v)
    i = vals[1] if which == "get" else I(0) if which == "first" else sub(n, I(1))
    if i.op == "adt":
        return None
    loc = (vals[0].a[0], vals[0].a[1]) if vals[0].op == "ref" else (("V", v), ())
    outs = []
    c = E.cond_in(sub(n, i), iv(1, INF)) if which == "get" else E.cond_in(n, iv(1, INF))
    for tr, s in E.fork(st, c):
        if tr:
            outs.append((s, some(E, dt, mk("ref", ("V", E.elem(s, v, i)), ()))))
        else:
            outs.append((s, none(E, dt)))
    return outs


@model(r"^std::slice::concat$", r"^std::slice::join$")
def m_concat(E, st, f, vals, at, dt, fr, uid):
    v = dv(E, st, vals[0])
    if v.op != "seq":
        return None
    c = seq_concrete(v)
    if c is None:
        return None
    sep = S_of(E, st, vals[1]) if len(vals) > 1 else S("")
    out = S("")
    for i, x in enumerate(c):
        s = S_of(E, st, x)
        if s is None:
            return None
        out = S(out, sep, s) if i else S(s)
    return [(st, out)]


# ---------------------------------------------------------------- iterators
@model(r"^core::slice::iter$", r"^<std::vec::Vec as std::iter::IntoIterator>::into_iter$", r"^core::slice::iter::into_iter$",
       r"^core::array::iter::into_iter$", r"^<&std::vec::Vec as std::iter::IntoIterator>::into_iter$", r"^<\[?.*\]? as std::iter::IntoIterator>::into_iter$")
def m_iter(E, st, f, vals, at, dt, fr, uid):
    v = vals[0]
    if "as std::iter::IntoIterator" in f.sname and v.op not in ("seq", "ref", "map"):
        return None
    x = dv(E, st, v)
    if x.op == "map" or (at and at[0] is not None and "HashMap" in E.T[pointee_ty(E, at[0])]["s"].split("<")[0]):
        return m_mapiter(E, st, f, vals, at, dt, fr, uid)
    if x.op != "seq":
        return None
    if v.op == "ref" and at and at[0] is not None and E.T[at[0]]["k"] == "ref" and E.T[at[0]]["mut"]:
        return m_itermut(E, st, f, vals, at, dt, fr, uid)
    mode = "ref" if v.op == "ref" else "val"
    return [(st, mk("it", mode, x, I(0)))]


def it_next(E, st, it, dt):
    """-> [(st, newit, elem or None)]"""
    mode, sq, pos = it.a
    ety = None
    if dt is not None:
        ety = inner(E, dt)
    parts = list(sq.a)
    if not parts:
        E.conc = True
        return [(st, it, None)]
    p = parts[0]
    if p.op == "e":
        E.conc = True
        return [(st, mk("it", mode, seq(*parts[1:]), I(0)), p.a[0])]
    n = mk("len", p.a[0]) if p.op == "q" else p.a[1]
    out = []
    c = E.cond_in(sub(n, pos), iv(1, INF))
    for tr, s in E.fork(st, c):
        if tr:
            if p.op == "q":
                t = mk("idx", p.a[0], pos)
                x = G.tyof(p.a[0])
                et = E.elemty(x) if x is not None else None
                if et is None and ety is not None:
                    et = pointee_ty(E, ety) if mode == "ref" else ety
                v = E.symval(t, et) if et is not None else t
            else:
                v = p.a[0]
            out.append((s, mk("it", mode, sq, add(pos, I(1))), v))
        else:
            nit = mk("it", mode, seq(*parts[1:]), I(0))
            if len(parts) > 1:
                out += it_next(E, s, nit, dt)
            else:
                out.append((s, nit, None))
    return out


@model(r"^<std::slice::Iter as std::iter::Iterator>::next$", r"^<std::vec::IntoIter as std::iter::Iterator>::next$", r"^core::slice::iter::next$",
       r"^<std::str::(Chars|Bytes|Split|Lines|SplitWhitespace) as std::iter::Iterator>::next$", r"^<hashbrown::map::\w+ as std::iter::Iterator>::next$",
       r"^<std::collections::hash_(map|set)::\w+ as std::iter::Iterator>::next$", r"^<std::array::IntoIter as std::iter::Iterator>::next$",
       r"^<std::iter::(Rev|Cloned|Copied) as std::iter::Iterator>::next$", r"^core::str::iter::next$")
def m_next(E, st, f, vals, at, dt, fr, uid):
    it = dv(E, st, vals[0])
    if it.op != "it":
        return None
    out = []
    for s, nit, v in it_next(E, st, it, dt):
        s = s.copy()
        setref(E, s, vals[0], nit)
        if v is None:
            out.append((s, none(E, dt)))
        else:
            et = inner(E, dt)
            if it.a[0] == "ref" and E.T[et]["k"] == "ref" and v.op not in ("S",):
                v = ref(v)
            elif it.a[0] == "ref" and E.T[et]["k"] == "ref" and E.T[E.T[et]["of"]]["k"] != "str":
                v = ref(v) if v.op != "S" else mk("ref", ("V", v), ())
            out.append((s, some(E, dt, v)))
    return out


@model(r"^<std::iter::Rev as std::iter::Iterator>", r"^<.* as std::iter::Iterator>::rev$")
def m_rev(E, st, f, vals, at, dt, fr, uid):
    v = vals[0]
    if v.op == "it" and v.a[2] is I(0):
        sq = v.a[1]
        if all(p.op in ("e", "rep") for p in sq.a):
            return [(st, mk("it", v.a[0], seq(*reversed(sq.a)), I(0)))]
        parts = []
        for p in reversed(sq.a):
            if p.op == "q":
                t = mk("rev", p.a[0])
                if G.tyof(p.a[0]) is not None:
                    G._typeof.setdefault(t, G.tyof(p.a[0]))
                parts.append(Q(t))
            else:
                parts.append(p)
        return [(st, mk("it", v.a[0], seq(*parts), I(0)))]
    if v.op == "adt" and E.T[v.a[0]]["name"].endswith("::Range") and v.a[2].op == "i" and v.a[3].op == "i" and v.a[3].a[0] - v.a[2].a[0] < 600:
        return [(st, mk("it", "val", seq(*[mk("e", I(k)) for k in range(v.a[3].a[0] - 1, v.a[2].a[0] - 1, -1)]), I(0)))]
    return None


@model(r"^<.* as std::iter::Iterator>::(cloned|copied|into_iter|by_ref)$", r"^<std::(slice::Iter|vec::IntoIter|str::\w+|iter::\w+) as std::iter::IntoIterator>::into_iter$",
       r"^<std::ops::Range(Inclusive)? as std::iter::IntoIterator>::into_iter$", r"^<hashbrown::\S+ as std::iter::IntoIterator>::into_iter$",
       r"^<std::collections::hash_map::\w+ as std::iter::IntoIterator>::into_iter$", r"^std::iter::IntoIterator::into_iter$")
def m_itid(E, st, f, vals, at, dt, fr, uid):
    v = vals[0]
    if f.sname.endswith(("cloned", "copied")):
        if v.op == "it":
            sq = v.a[1]
            if v.a[0] != "ref":
                sq = seq(*[mk("e", E.load(st, (p.a[0].a[0], p.a[0].a[1]))) if p.op == "e" and p.a[0].op == "ref" else p for p in sq.a])
            return [(st, mk("it", "val", sq, v.a[2]))]
        return None
    if f.sname.endswith("by_ref"):
        return [(st, v)]
    return [(st, v)]


@model(r"^std::iter::range::next$", r"^<std::ops::Range as std::iter::Iterator>::next$")
def m_range_next(E, st, f, vals, at, dt, fr, uid):
    r = dv(E, st, vals[0])
    if r.op != "adt" or not E.T[r.a[0]]["name"].endswith("ops::Range"):
        return None
    lo, hi = r.a[2], r.a[3]
    c = E.cond_in(sub(hi, lo), iv(1, INF))
    if c.op == "i":
        E.conc = True
    out = []
    for tr, s in E.fork(st, c):
        if tr:
            s = s.copy()
            setref(E, s, vals[0], mk("adt", r.a[0], r.a[1], add(lo, I(1)), hi))
            out.append((s, some(E, dt, lo)))
        else:
            out.append((s, none(E, dt)))
    return out


def next_any(E, st, itref, ity, dt, fr, uid):
    """call Iterator::next on an iterator value stored behind itref"""
    v = dv(E, st, itref)
    if v.op == "it":
        return [(upd(E, s, itref, nit), None if x is None else x) for s, nit, x in it_next(E, st, v, dt)]
    return None


def upd(E, s, r, v):
    s = s.copy()
    setref(E, s, r, v)
    return s


def adt_name(E, v):
    return E.T[v.a[0]]["name"].split("::")[-1] if v.op == "adt" else None


def drain(E, st, itv, fr, uid, depth=0):
    """all elements of an iterator value -> [(st, seq)] or None"""
    if itv.op == "ref":
        return drain(E, st, dv(E, st, itv), fr, uid, depth)
    if itv.op == "seq":
        return [(st, itv)]
    if itv.op == "it":
        mode, sq, pos = itv.a
        if pos is not I(0):
            return None
        if mode == "ref":
            return [(st, seq(*[mk("e", ref(p.a[0])) if p.op == "e" else p for p in sq.a]))]
        return [(st, sq)]
    nm = adt_name(E, itv)
    if nm == "Map":
        outs = []
        base = drain(E, st, itv.a[2], fr, uid, depth + 1)
        if base is None:
            return None
        for s, sq in base:
            accs = [(s, seq())]
            for k, p in enumerate(sq.a):
                nacc = []
                for s2, acc in accs:
                    if p.op == "e":
                        for s3, r in E.call_value(s2, itv.a[3], [p.a[0]], E.uid("dr", uid, depth, k), fr):
                            nacc.append((s3, seq(acc, mk("e", r))))
                    elif p.op == "q":
                        t = p.a[0]
                        el = mk("idx", t, mk("each", t))
                        x = G.tyof(t)
                        et = E.elemty(x) if x is not None else None
                        v = E.symval(el, et) if et is not None else el
                        if itv.a[2].op == "it" and itv.a[2].a[0] == "ref":
                            v = ref(v) if v.op != "S" else mk("ref", ("V", v), ())
                        rs = E.call_value(s2, itv.a[3], [v], E.uid("dr", uid, depth, k), fr)
                        if len(rs) != 1:
                            return None
                        s3, r = rs[0]
                        m = mk("map", t, r) if False else mk("fmap", t, r)
                        if x is not None and et is not None and r.op not in ("S", "seq"):
                            pass
                        nacc.append((s2, seq(acc, Q(m))))
                    else:
                        return None
                accs = nacc
            outs += accs
        return outs
    if nm in ("Cloned", "Copied"):
        base = drain(E, st, itv.a[2], fr, uid, depth + 1)
        if base is None:
            return None
        return [(s, seq(*[mk("e", dv(E, s, p.a[0])) if p.op == "e" else p for p in sq.a])) for s, sq in base]
    if nm == "Chain":
        parts = []
        for x in itv.a[2:4]:
            if x.op == "adt":
                if len(x.a) == 3:
                    r = drain(E, st, x.a[2], fr, uid, depth + 1)
                    if r is None or len(r) != 1:
                        return None
                    parts += r[0][1].a
            else:
                return None
        return [(st, seq(*parts))]
    if nm == "Range" and itv.a[2].op == "i" and itv.a[3].op == "i":
        return [(st, seq(*[mk("e", I(k)) for k in range(itv.a[2].a[0], itv.a[3].a[0])]))]
    return None


@model(r"^<.* as std::iter::Iterator>::collect$")
def m_collect(E, st, f, vals, at, dt, fr, uid):
    r = drain(E, st, vals[0], fr, uid)
    if r is None:
        return None
    n = E.T[dt]["name"].split("::")[-1] if E.T[dt]["k"] == "adt" else ""
    out = []
    for s, sq in r:
        if n == "Vec":
            out.append((s, sq))
        elif n == "String":
            parts = []
            for p in sq.a:
                if p.op == "e" and p.a[0].op == "S":
                    parts.append(p.a[0])
                elif p.op == "e":
                    x = dv(E, s, p.a[0])
                    parts.append(x if x.op == "S" else chr_s(x))
                else:
                    parts.append(mk("collect", p))
            out.append((s, S(*parts)))
        else:
            return None
    return out


# ---------------------------------------------------------------- maps
def map_insert(m, k, v):
    if m.op == "map":
        ents = [e for e in m.a[1:] if e.a[0] is not k]
        return mk("map", m.a[0], *(ents + [mk("ent", k, v)]))
    return mk("map", m, mk("ent", k, v))


def map_find(E, m, k):
    """-> ('yes', value) / ('no',) / ('maybe', cond)"""
    if m.op != "map":
        return ("maybe", mk("haskey", m, k))
    for e in reversed(m.a[1:]):
        if e.a[0] is k:
            return ("yes", e.a[1])
        if not distinct(e.a[0], k, E):
            return ("maybe", mk("haskey", m, k))
    b = m.a[0]
    if b == "empty":
        return ("no",)
    return ("maybe", mk("haskey", b, k))


_ground = {}


def ground(v):
    """is it a fully known value (so that two different ones are not equal)?"""
    r = _ground.get(v.id)
    if r is None:
        if v.op == "i":
            r = True
        elif v.op == "S":
            r = all(type(x) is str for x in v.a)
        elif v.op in ("adt", "tup", "box"):
            r = all(ground(x) for x in v.a if type(x) is N)
        else:
            r = False
        _ground[v.id] = r
    return r


_index = {}


def ground_index(m):
    """{id of key: entry} of a map whose keys are all fully known, else None"""
    r = _index.get(m.id, 0)
    if r == 0:
        r = None
        if m.a[0] == "empty" and all(ground(e.a[0]) for e in m.a[1:]):
            r = {e.a[0].id: e for e in m.a[1:]}
        if len(_index) > 20000:
            _index.clear()
        _index[m.id] = r
    return r


def all_distinct(E, st, m):
    d = ground_index(m)
    if d is not None:
        return len(d) == len(m.a) - 1
    ks = [e.a[0] for e in m.a[1:]]
    return all(distinct(x, y, E, st) for i, x in enumerate(ks) for y in ks[:i])


def keyeq(E, a, b):
    """condition for two map keys to be equal (derived equality), or None when not expressible"""
    if a is b:
        return TRUE
    if a.op == b.op and ground(a) and ground(b):
        return FALSE
    if a.op == "box" and b.op == "box":
        return keyeq(E, a.a[0], b.a[0])
    if a.op == "S" and b.op == "S":
        return streq(E, a, b)
    if a.op == "i" and b.op == "i":
        return FALSE
    if a.op in ("adt", "tup") and a.op == b.op:
        if a.op == "adt" and a.a[:2] != b.a[:2]:
            return FALSE
        cs = [keyeq(E, x, y) for x, y in zip(a.a, b.a) if type(x) is N]
        if any(c is FALSE for c in cs):
            return FALSE
        cs = [c for c in cs if c is not TRUE]
        if not cs:
            return TRUE
        return cs[0] if len(cs) == 1 else None
    for x, y in ((a, b), (b, a)):
        if x.op == "i" and y.op not in ("adt", "tup", "S", "box", "ref", "opt"):
            return E.cond_in(y, iv(x.a[0], x.a[0]))
    return None


def distinct(a, b, E=None, st=None):
    c = keyeq(E, a, b)
    if c is FALSE:
        return True
    return st is not None and c is not None and E.decide(st, c) is False


def map_cases(E, st, m, k):
    """[(st, ('yes', value) | ('no',) | ('maybe', cond))]: decides the key against the literally known entries, forking on unknown names"""
    if m.op != "map":
        return [(st, ("maybe", mk("haskey", m, k)))]
    if ground(k):
        d = ground_index(m)
        if d is not None:
            e = d.get(k.id)
            return [(st, ("yes", e.a[1]) if e is not None else ("no",))]
    out = []
    n = 0
    for e in reversed(m.a[1:]):
        c = keyeq(E, e.a[0], k)
        d = None if c is None else E.decide(st, c)
        if d is True:
            return out + [(st, ("yes", e.a[1]))]
        if d is False:
            continue
        n += 1
        if c is None or n > 40:
            return out + [(st, ("maybe", mk("haskey", m, k)))]
        rest = None
        for tr, s in E.fork(st, c):
            if tr:
                out.append((s, ("yes", e.a[1])))
            else:
                rest = s
        if rest is None:
            return out
        st = rest
    b = m.a[0]
    return out + [(st, ("no",) if b == "empty" else ("maybe", mk("haskey", b, k)))]


@model(r"^std::collections::Hash(Map|Set)::new$", r"^<std::collections::(Hash|BTree)(Map|Set) as std::default::Default>", r"^std::collections::BTree(Map|Set)::new$")
def m_mapnew(E, st, f, vals, at, dt, fr, uid):
    return [(st, mk("map", "empty"))]


def norm_key(E, st, v):
    return E.snapshot(st, dv(E, st, v))


@model(r"^std::collections::(Hash|BTree)(Map|Set)::insert$", r"^hashbrown::map::HashMap::insert$")
def m_mapins(E, st, f, vals, at, dt, fr, uid):
    m = dv(E, st, vals[0])
    k = norm_key(E, st, vals[1])
    v = vals[2] if len(vals) > 2 else UNIT
    out = []
    for st, r in map_cases(E, st, m, k):
        st = st.copy()
        setref(E, st, vals[0], map_insert(m, k, v))
        if E.T[dt]["k"] == "bool":
            out.append((st, FALSE if r[0] == "yes" else TRUE if r[0] == "no" else G.neg_cond(r[1])))
        elif r[0] == "no":
            out.append((st, none(E, dt)))
        elif r[0] == "yes":
            out.append((st, some(E, dt, r[1])))
        else:
            out.append((st, E.symval(mk("old", m, k), dt)))
    return out


@model(r"^std::collections::(Hash|BTree)(Map|Set)::(contains_key|contains)$", r"^hashbrown::map::HashMap::contains_key$")
def m_maphas(E, st, f, vals, at, dt, fr, uid):
    m = dv(E, st, vals[0])
    return [(s, TRUE if r[0] == "yes" else FALSE if r[0] == "no" else r[1]) for s, r in map_cases(E, st, m, norm_key(E, st, vals[1]))]


@model(r"^std::collections::(Hash|BTree)Map::get(_mut)?$", r"^hashbrown::map::HashMap::get(_mut)?$")
def m_mapget(E, st, f, vals, at, dt, fr, uid):
    m = dv(E, st, vals[0])
    k = norm_key(E, st, vals[1])
    vt = pointee_ty1(E, inner(E, dt))
    loc = vals[0]
    while True:
        x = E.load(st, (loc.a[0], loc.a[1])) if loc.op == "ref" else loc
        if x.op == "ref":
            loc = x
        else:
            break
    rr = mk("ref", loc.a[0], loc.a[1] + (("mk", k, vt),)) if loc.op == "ref" else ref(E.mapval(st, m, k, vt))
    out = []
    for s1, r in map_cases(E, st, m, k):
        if r[0] == "yes":
            # a known entry: shared references see its value
            x = rr if "mut" in f.sname else ref(r[1])
            out.append((s1, some(E, dt, x)))
        elif r[0] == "no":
            out.append((s1, none(E, dt)))
        else:
            for tr, s in E.fork(s1, r[1]):
                out.append((s, some(E, dt, rr) if tr else none(E, dt)))
    return out


def pointee_ty1(E, ti):
    return E.T[ti]["of"] if E.T[ti]["k"] in ("ref", "ptr") else ti


@model(r"^<std::collections::(Hash|BTree)Map as std::ops::Index>::index$")
def m_mapindex(E, st, f, vals, at, dt, fr, uid):
    m = dv(E, st, vals[0])
    k = norm_key(E, st, vals[1])
    vt = pointee_ty1(E, dt)
    v = ref(E.mapval(st, m, k, vt))
    out = []
    for s1, r in map_cases(E, st, m, k):
        if r[0] == "yes":
            out.append((s1, ref(r[1])))
        elif r[0] == "no":
            E.panic(s1, "map index", fr, None)
        else:
            for tr, s in E.fork(s1, r[1]):
                if tr:
                    out.append((s, v))
                else:
                    E.panic(s, "map index", fr, None)
    return out


@model(r"^std::collections::(Hash|BTree)(Map|Set)::(iter|keys|values|into_keys|into_values)$", r"^hashbrown::map::HashMap::(iter|keys|values)$",
       r"^<&?std::collections::(Hash|BTree)(Map|Set) as std::iter::IntoIterator>::into_iter$")
def m_mapiter(E, st, f, vals, at, dt, fr, uid):
    m = dv(E, st, vals[0])
    which = f.sname.split("::")[-1]
    if m.op == "map" and m.a[0] == "empty":
        # literally known entries: any order is possible; insertion order is used (order dependence is
        # decided separately, by the determinism check)
        if all_distinct(E, st, m):
            byref = not (which == "into_iter" and vals[0].op != "ref") and which not in ("into_keys", "into_values")
            w = (lambda x: ref(x)) if byref else (lambda x: x)
            out = []
            ents = list(m.a[1:])
            if "BTree" in f.sname:
                ks = [literal_key(e.a[0]) for e in ents]
                if any(k is None for k in ks):
                    return None
                ents = [e for _, e in sorted(zip(ks, ents), key=lambda p: p[0])]
            elif len(ents) > 1:
                E.hash_iterations.add((fr.fn.name if fr is not None else "?"))
                ents = E.hash_order(ents)
            for e in ents:
                if which in ("keys", "into_keys") or "Set" in f.sname:
                    out.append(mk("e", w(e.a[0])))
                elif which in ("values", "into_values", "values_mut"):
                    out.append(mk("e", w(e.a[1])))
                else:
                    out.append(mk("e", mk("tup", w(e.a[0]), w(e.a[1]))))
            return [(st, mk("it", "val", seq(*out), I(0)))]
    return [(st, mk("it", "map", seq(Q(mk("map_" + which, m))), I(0)))]


# ---------------------------------------------------------------- option / result fast paths
@model(r"^std::option::Option::(is_some|is_none)$", r"^std::result::Result::(is_ok|is_err)$")
def m_is(E, st, f, vals, at, dt, fr, uid):
    v = dv(E, st, vals[0])
    w = f.sname.split("::")[-1]
    want = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[w]
    if v.op == "adt":
        return [(st, I(int(E.P.vname(v.a[0], v.a[1]) == want)))]
    ti = pointee_ty(E, at[0]) if at and at[0] is not None else None
    if ti is None:
        return None
    G._typeof.setdefault(v, ti)
    return [(st, mk("isv", v, E.P.variant(ti, want)))]


# ---------------------------------------------------------------- formatting
def to_display(E, st, ti, v, spec, fr, uid, depth=0):
    """-> [(st, S)]; spec '' plain display, otherwise a tag such as 'X02' or 'debug'"""
    t = E.T[ti]
    k = t["k"]
    if k in ("ref", "ptr"):
        if v.op == "S":
            return to_display(E, st, t["of"], v, spec, fr, uid, depth)
        return to_display(E, st, t["of"], E.load(st, (v.a[0], v.a[1])) if v.op == "ref" else mk("*", v), spec, fr, uid, depth)
    if t["k"] == "adt" and t["box"]:
        x = v.a[0] if v.op == "box" else mk("*", v)
        return to_display(E, st, t["args"][0], x, spec, fr, uid, depth)
    if v.op == "S" and spec == "":
        return [(st, v)]
    if k == "char" and spec == "":
        return [(st, S(chr_s(v)))]
    if k == "int":
        if v.op == "i" and spec in ("", "d"):
            return [(st, S(str(v.a[0])))]
        m = re.match(r"^([xXbod])(0?)(\d*)$", spec) if v.op == "i" and v.a[0] >= 0 else None
        if m:
            return [(st, S(format(v.a[0], (m.group(2) if m.group(3) else "") + (">" if m.group(3) and not m.group(2) else "") + m.group(3) + m.group(1))))]
        return [(st, S(mk("disp", v, "d" if spec == "" else spec)))]
    if k == "adt" and t["local"] and spec == "":
        f = display_fn(E, ti)
        if f is not None and (f not in E.stack or v.op == "adt" and sum(g is f for g in E.stack) < 12) and not any(x.search(f.sname) for x in E.opaque) and depth < 6:
            o = ("X", uid, "fmt", depth)
            s2 = st.copy()
            old = s2.mem.get(o)
            s2.mem[o] = S("")
            out = []
            a = ref(v) if v.op != "S" else mk("ref", ("V", v), ())
            for s3, r in E.run(f, [a, mk("ref", o, ())], s2, E.uid("disp", uid, f.id, depth)):
                s3 = s3.copy()
                b = s3.mem.pop(o)
                out.append((s3, b if b.op == "S" else S(b)))
            return out
    if v.op == "adt" or True:
        return [(st, S(mk("disp", E.snapshot(st, v), spec)))]


def display_fn(E, ti):
    n = "<%s as std::fmt::Display>::fmt"
    c = getattr(E.P, "_dispfn", None)
    if c is None:
        c = E.P._dispfn = {}
        for f in E.P.F:
            if f.blocks is not None and f.argc == 2 and f.sname.endswith(" as std::fmt::Display>::fmt"):
                t = E.T[f.locals[1]]
                if t["k"] == "ref":
                    c.setdefault(t["of"], f)
    return c.get(ti)


@model(r"^core::fmt::rt::Argument::new_\w+$")
def m_fmtarg(E, st, f, vals, at, dt, fr, uid):
    kind = f.sname.split("new_")[-1]
    ti = E.T[at[0]]["of"] if E.T[at[0]]["k"] == "ref" else at[0]
    return [(st, mk("farg", kind, ti, vals[0]))]


KIND = {"display": "", "lower_hex": "x", "upper_hex": "X", "binary": "b", "octal": "o", "debug": "?"}


def render(E, st, tmpl, args, fr, uid):
    """interpret the compiled format template"""
    outs = [(st, S(""))]
    i = 0
    nexta = 0
    n = len(tmpl)
    ph = 0
    while i < n:
        b = tmpl[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            txt = bytes(tmpl[i:i + b]).decode()
            i += b
            outs = [(s, S(x, txt)) for s, x in outs]
            continue
        if b == 0x80:
            ln = tmpl[i] | tmpl[i + 1] << 8
            i += 2
            txt = bytes(tmpl[i:i + ln]).decode()
            i += ln
            outs = [(s, S(x, txt)) for s, x in outs]
            continue
        flags = width = prec = None
        if b & 1:
            flags = int.from_bytes(bytes(tmpl[i:i + 4]), "little")
            i += 4
        if b & 2:
            width = tmpl[i] | tmpl[i + 1] << 8
            i += 2
        if b & 4:
            prec = tmpl[i] | tmpl[i + 1] << 8
            i += 2
        if b & 8:
            nexta = tmpl[i] | tmpl[i + 1] << 8
            i += 2
        a = args[nexta]
        nexta += 1
        ph += 1
        a = dv(E, st, a)
        kind = KIND.get(a.a[0], a.a[0])
        spec = kind
        if flags is not None or width is not None or prec is not None:
            fl = flags or 0
            spec = (kind or "d") + ("#" if fl & (1 << 23) else "") + ("0" if fl & (1 << 24) else "") + ("+" if fl & (1 << 21) else "") + (str(width) if width else "") + ("." + str(prec) if prec is not None else "")
        nouts = []
        for s, x in outs:
            for s2, y in to_display(E, s, a.a[1], dv1(E, s, a.a[2]), spec, fr, E.uid("ph", uid, ph)):
                nouts.append((s2, S(x, y)))
        outs = nouts
    return outs


def dv1(E, st, v):
    if v.op == "ref":
        return E.load(st, (v.a[0], v.a[1]))
    return v


@model(r"^std::fmt::Arguments::new$")
def m_args(E, st, f, vals, at, dt, fr, uid):
    t = dv(E, st, vals[0])
    tc = seq_concrete(t) if t.op == "seq" else None
    a = dv(E, st, vals[1])
    ac = seq_concrete(a) if a.op == "seq" else None
    if tc is None or ac is None or any(x.op != "i" for x in tc):
        return None
    return [(s, mk("fargs", x)) for s, x in render(E, st, [x.a[0] for x in tc], ac, fr, uid)]


@model(r"^std::fmt::Arguments::(from_str|new_const|from_str_nonconst)$")
def m_argstr(E, st, f, vals, at, dt, fr, uid):
    v = dv(E, st, vals[0])
    return [(st, mk("fargs", v))] if v.op == "S" else None


@model(r"^std::fmt::format$", r"^std::fmt::format::format_inner$")
def m_format(E, st, f, vals, at, dt, fr, uid):
    v = dv(E, st, vals[0])
    return [(st, v.a[0])] if v.op == "fargs" else None


@model(r"^std::hint::must_use$", r"^std::convert::identity$", r"^<.* as std::convert::Into>::into$XX")
def m_ident(E, st, f, vals, at, dt, fr, uid):
    return [(st, vals[0])]


@model(r"^std::fmt::Formatter::write_fmt$", r"^std::fmt::Formatter::write_str$", r"^<std::fmt::Formatter as std::fmt::Write>::write_(str|fmt|char)$",
       r"^<std::string::String as std::fmt::Write>::write_(str|fmt|char)$", r"^std::fmt::Write::write_(fmt|str)$", r"^<str as std::fmt::Display>::fmt$",
       r"^<std::string::String as std::fmt::Display>::fmt$", r"^std::fmt::Formatter::pad$", r"^std::fmt::Write::write_char$")
def m_write(E, st, f, vals, at, dt, fr, uid):
    if f.sname.endswith("Display>::fmt"):
        vals = [vals[1], vals[0]]
    buf = dv(E, st, vals[0])
    v = dv(E, st, vals[1])
    if v.op == "fargs":
        v = v.a[0]
    elif f.sname.endswith("write_char"):
        v = S(chr_s(v))
    if buf.op != "S" or v.op != "S":
        return None
    st = st.copy()
    r = vals[0]
    while True:
        x = E.load(st, (r.a[0], r.a[1]))
        if x.op == "ref":
            r = x
        else:
            break
    setref(E, st, r, S(buf, v))
    return [(st, ok(E, dt, UNIT))]


@model(r" as std::fmt::Display>::fmt$")
def m_dispfmt(E, st, f, vals, at, dt, fr, uid):
    buf = dv(E, st, vals[1])
    if buf.op != "S":
        return None
    if f.blocks is not None and f.local and not any(x.search(f.sname) for x in E.opaque) and (
            f not in E.stack or dv(E, st, vals[0]).op in ("adt", "box") and sum(g is f for g in E.stack) < 12):
        return None
    ti = E.T[f.locals[1]]["of"] if f.locals else (E.T[at[0]]["of"] if at and at[0] is not None else None)
    v = dv1(E, st, vals[0])
    outs = []
    rs = to_display(E, st, ti, v, "", fr, uid) if ti is not None else [(st, S(mk("disp", E.snapshot(st, v), "")))]
    for s, x in rs:
        s = s.copy()
        setref(E, s, vals[1], S(buf, x))
        outs.append((s, ok(E, dt, UNIT)))
    return outs


@model(r" as std::string::ToString>::to_string$", r"^std::string::ToString::to_string$")
def m_tostring(E, st, f, vals, at, dt, fr, uid):
    ti = at[0] if at and at[0] is not None else None
    if ti is None:
        return None
    ti = E.T[ti]["of"] if E.T[ti]["k"] == "ref" else ti
    return to_display(E, st, ti, dv1(E, st, vals[0]), "", fr, uid)


# ---------------------------------------------------------------- misc
@model(r"lazy_static::lazy::Lazy::get$")
def m_lazy(E, st, f, vals, at, dt, fr, uid):
    outs = []
    for s, v in E.call_value(st, vals[1], [], E.uid("lazy", uid), fr, None):
        outs.append((s, ref(v)))
    return outs


@model(r"^core::num::from_str_radix$")
def m_radix(E, st, f, vals, at, dt, fr, uid):
    return None


@model(r"^std::mem::(swap)$")
def m_swap(E, st, f, vals, at, dt, fr, uid):
    a, b = dv1(E, st, vals[0]), dv1(E, st, vals[1])
    st = st.copy()
    setref(E, st, vals[0], b)
    setref(E, st, vals[1], a)
    return [(st, UNIT)]


@model(r"^std::mem::(replace|take)$", r"^std::option::Option::take$XX")
def m_replace_mem(E, st, f, vals, at, dt, fr, uid):
    a = dv1(E, st, vals[0])
    if f.sname.endswith("take"):
        if a.op == "S":
            new = S("")
        elif a.op == "seq":
            new = seq()
        elif a.op == "map":
            new = mk("map", "empty")
        elif a.op == "adt" and E.T[a.a[0]]["name"].endswith("option::Option"):
            new = none(E, a.a[0])
        elif E.T[dt]["k"] == "int":
            new = I(0)
        elif E.T[dt]["k"] == "bool":
            new = FALSE
        else:
            return None
    else:
        new = vals[1]
    st = st.copy()
    setref(E, st, vals[0], new)
    return [(st, a)]


@model(r"^core::num::(wrapping|checked|saturating|overflowing)_(add|sub|mul)$")
def m_num(E, st, f, vals, at, dt, fr, uid):
    kind, op = f.sname.split("::")[-1].split("_")
    a, b = vals
    r = E.arith({"add": "Add", "sub": "Sub", "mul": "Mul"}[op], a, b)
    ti = at[0]
    full = E.trange(ti)
    c = E.cond_in(r, full)
    if E.rng(st, r).subset(full):
        c = TRUE
    if kind == "wrapping":
        d = E.decide(st, c)
        if d:
            return [(st, r)]
        return [(st, E.cast_int(st, r, ti, None))]
    if kind == "checked":
        return [(s, some(E, dt, r) if tr else none(E, dt)) for tr, s in E.fork(st, c)]
    if kind == "overflowing":
        return [(s, mk("tup", r if tr else mk("wrap", ti, r), FALSE if tr else TRUE)) for tr, s in E.fork(st, c)]
    if kind == "saturating":
        if E.decide(st, c):
            return [(st, r)]
        out = []
        lo = E.cond_in(r, iv(-INF, full.lo() - 1))
        for tr, s in E.fork(st, c):
            if tr:
                out.append((s, r))
            else:
                for t2, s2 in E.fork(s, lo):
                    out.append((s2, I(full.lo() if t2 else full.hi())))
        return out
    return None


@model(r"^core::num::to_le_bytes$", r"^core::num::to_be_bytes$")
def m_lebytes(E, st, f, vals, at, dt, fr, uid):
    bits, sg = E.intty(at[0])
    v = vals[0]
    out = []
    for k in range(bits // 8):
        x = v if k == 0 else E.binop(st, "Shr", v, I(8 * k), at[0])
        u8 = E.P.tyname["u8"]
        out.append(mk("e", E.cast_int(st, x, u8, at[0])))
    if "be" in f.sname:
        out.reverse()
    return [(st, seq(*out))]


@model(r"^std::cmp::(max|min)$", r"^<.* as std::cmp::Ord>::(max|min)$", r"^std::cmp::Ord::(max|min)$")
def m_minmax(E, st, f, vals, at, dt, fr, uid):
    if at[0] is None or E.intty(at[0]) is None:
        return None
    a, b = vals
    c = E.cond_in(sub(a, b), iv(1, INF))
    mx = f.sname.endswith("max")
    return [(s, (a if tr else b) if mx else (b if tr else a)) for tr, s in E.fork(st, c)]


# ---------------------------------------------------------------- intrinsics
def intrinsic(E, st, f, vals, at, dt, fr, uid):
    n = f.intr or f.sname.split("::")[-1]
    if n == "discriminant_value":
        v = dv1(E, st, vals[0])
        ti = E.T[at[0]]["of"] if at and at[0] is not None else None
        return [(st, E.discr(st, v, ti))]
    if n in ("black_box", "transmute", "must_use"):
        return [(st, vals[0])]
    if n in ("likely", "unlikely"):
        return [(st, vals[0])]
    if n in ("assume", "assert_inhabited", "assert_zero_valid", "cold_path", "forget"):
        return [(st, UNIT)]
    if n in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul"):
        op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[n.split("_")[1]]
        r = E.arith(op, vals[0], vals[1])
        if n.startswith("unchecked") or E.rng(st, r).subset(E.trange(at[0])):
            return [(st, r)]
        return [(st, E.cast_int(st, r, at[0], None))]
    if n in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
        op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[n.split("_")[0]]
        r = E.arith(op, vals[0], vals[1])
        full = E.trange(at[0])
        if E.rng(st, r).subset(full):
            return [(st, mk("tup", r, FALSE))]
        return [(s, mk("tup", r if tr else mk("wrap", at[0], r), FALSE if tr else TRUE)) for tr, s in E.fork(st, E.cond_in(r, full))]
    if n == "three_way_compare":
        return None
    if n in ("integer_min", "integer_max"):
        c = E.binop(st, "Le" if n == "integer_min" else "Ge", vals[0], vals[1], at[0])
        return [(s, vals[0] if tr else vals[1]) for tr, s in E.fork(st, c)]
    if n in ("saturating_add", "saturating_sub"):
        op = {"add": "Add", "sub": "Sub"}[n.split("_")[1]]
        r = E.arith(op, vals[0], vals[1])
        full = E.trange(at[0])
        if E.rng(st, r).subset(full):
            return [(st, r)]
        out = []
        for tr, s in E.fork(st, E.cond_in(r, full)):
            if tr:
                out.append((s, r))
            else:
                out += [(s2, I(full.lo() if low else full.hi())) for low, s2 in E.fork(s, E.cond_in(r, iv(-INF, full.lo() - 1)))]
        return out
    if n in ("unchecked_div", "unchecked_rem", "exact_div"):
        return [(st, E.binop(st, "Rem" if n.endswith("rem") else "Div", vals[0], vals[1], at[0]))]
    if n in ("unchecked_shl", "unchecked_shr"):
        return [(st, E.binop(st, "Shl" if n.endswith("shl") else "Shr", vals[0], vals[1], at[0]))]
    if n == "disjoint_bitor":
        return [(st, E.binop(st, "BitOr", vals[0], vals[1], at[0]))]
    if n == "is_val_statically_known":
        return [(st, FALSE)]
    if n == "select_unpredictable":
        return [(s, vals[1] if tr else vals[2]) for tr, s in E.fork(st, vals[0])]
    if n in ("ctpop", "ctlz", "cttz", "ctlz_nonzero", "cttz_nonzero", "bswap", "bitreverse") and vals[0].op == "i":
        bits, sg = E.intty(at[0])
        x = vals[0].a[0] & (1 << bits) - 1
        w = n.split("_")[0]
        if w == "ctpop":
            return [(st, I(bin(x).count("1")))]
        if w == "ctlz":
            return [(st, I(bits - x.bit_length()))]
        if w == "cttz":
            return [(st, I((x & -x).bit_length() - 1 if x else bits))]
        y = int.from_bytes(x.to_bytes(bits // 8, "little"), "big") if w == "bswap" else int(format(x, "0%db" % bits)[::-1], 2)
        return [(st, I(y - (1 << bits) if sg and y >> bits - 1 else y))]
    if n in ("rotate_left", "rotate_right") and vals[0].op == "i" and vals[1].op == "i":
        bits, sg = E.intty(at[0])
        x = vals[0].a[0] & (1 << bits) - 1
        k = vals[1].a[0] % bits
        k = k if n == "rotate_left" else (bits - k) % bits
        y = (x << k | x >> bits - k) & (1 << bits) - 1
        return [(st, I(y - (1 << bits) if sg and y >> bits - 1 else y))]
    if n in ("size_of", "align_of", "min_align_of"):
        return None
    if n in ("unreachable", "abort"):
        return []
    return None


# ---------------------------------------------------------------- paths (represented by their text)
@model(r"^<&*std::path::Path(Buf)? as std::convert::AsRef>::as_ref$", r"^<std::path::PathBuf as std::ops::Deref>::deref$", r"^std::path::as_ref$", r"^std::path::Path(Buf)?::(as_path|to_path_buf|new|to_string_lossy|display)$",
       r"^<std::path::Path(Buf)? as std::borrow::(ToOwned>::to_owned|Borrow>::borrow)$", r"^<std::path::PathBuf as std::clone::Clone>::clone$", r"^<std::path::PathBuf as std::convert::From>::from$",
       r"^<std::borrow::Cow as std::(ops::Deref>::deref|string::ToString>::to_string|string::SpecToString>::spec_to_string|convert::AsRef>::as_ref)$", r"^std::borrow::Cow::into_owned$",
       r"^<std::path::Display as std::string::(ToString>::to_string|SpecToString>::spec_to_string)$", r"^<&str as std::convert::AsRef>::as_ref$")
def m_pathid(E, st, f, vals, at, dt, fr, uid):
    s = S_of(E, st, vals[0])
    return None if s is None else [(st, s)]


@model(r"^<std::path::PathBuf as std::cmp::PartialEq>::eq$", r"^<std::path::Path as std::cmp::PartialEq>::eq$")
def m_patheq(E, st, f, vals, at, dt, fr, uid):
    a, b = S_of(E, st, vals[0]), S_of(E, st, vals[1])
    if a is None or b is None:
        return None
    return [(st, streq(E, a, b))]


@model(r"^<.* as std::iter::Iterator>::(any|all|position)$")
def m_anyall(E, st, f, vals, at, dt, fr, uid):
    """searching a list whose elements are all known: the predicate is applied to them in turn"""
    what = f.sname.rsplit("::", 1)[1]
    it = dv(E, st, vals[0])
    if it.op != "it" or it.a[2] is not I(0) or any(p.op != "e" for p in it.a[1].a):
        return None
    E.conc = True
    live, out = [st], []
    parts = list(it.a[1].a)
    for k, p in enumerate(parts):
        nxt = []
        for s in live:
            x = p.a[0]
            if it.a[0] == "ref":
                x = ref(x) if x.op != "S" else mk("ref", ("V", x), ())
            for s2, r in E.call_value(s, vals[1], [x], E.uid("any", uid, k), fr):
                for tr, s3 in E.fork(s2, r):
                    if tr is (what != "all"):
                        s3 = s3.copy()
                        setref(E, s3, vals[0], mk("it", it.a[0], seq(*parts[k + 1:]), I(0)))
                        out.append((s3, some(E, dt, I(k)) if what == "position" else I(0) if what == "all" else I(1)))
                    else:
                        nxt.append(s3)
        live = nxt
    for s in live:
        s = s.copy()
        setref(E, s, vals[0], mk("it", it.a[0], seq(), I(0)))
        out.append((s, none(E, dt) if what == "position" else I(1) if what == "all" else I(0)))
    return out


@model(r"^core::slice::contains$", r"^<.* as core::slice::cmp::SliceContains>::slice_contains$")
def m_contains(E, st, f, vals, at, dt, fr, uid):
    """a list whose elements are all known: the wanted value is compared with them in turn, by the element type's own `==`"""
    lst, x = (vals[1], vals[0]) if f.sname.endswith("slice_contains") else (vals[0], vals[1])
    sq = dv(E, st, lst)
    ty = at[1] if at and len(at) > 1 else None
    if sq.op != "seq" or any(p.op != "e" for p in sq.a) or ty is None or E.T[ty]["k"] != "ref":
        return None
    E.conc = True
    name = "<%s as std::cmp::PartialEq>::eq" % E.T[E.T[ty]["of"]]["s"]
    eq = next((g for g in E.P.F if g.name == name), None)
    live, out = [st], []
    for k, p in enumerate(sq.a):
        nxt = []
        for s in live:
            el = p.a[0]
            if eq is not None:
                el = el if el.op == "ref" else ref(el) if el.op != "S" else mk("ref", ("V", el), ())
                rs = E.invoke(eq, [el, x], s, E.uid("has", uid, k), [ty, ty], dt, fr, None)
            else:
                c = keyeq(E, E.snapshot(s, el), E.snapshot(s, dv(E, s, x)))
                if c is None:
                    return None
                rs = [(s, c)]
            for s2, r in rs:
                for tr, s3 in E.fork(s2, r):
                    (out if tr else nxt).append((s3, I(1)) if tr else s3)
        live = nxt
    return out + [(s, I(0)) for s in live]


@model(r"^std::string::String::from_utf8$", r"^(std|core)::str::(converts::)?from_utf8$")
def m_from_utf8(E, st, f, vals, at, dt, fr, uid):
    """bytes that are ASCII on this path, or known"""
    sq = dv(E, st, vals[0])
    if sq.op != "seq" or any(p.op != "e" and not (p.op == "q" and p.a[0].op == "bytes") for p in sq.a):
        return None
    parts, run = [], b""
    for p in sq.a:
        if p.op == "q":
            parts += [run, p.a[0].a[0]]     # the bytes of a whole string
            run = b""
            continue
        b = p.a[0]
        if b.op == "i":
            run += bytes([b.a[0] & 255])
            continue
        if not E.rng(st, b).inter(iv(128, 255)).empty():
            return None
        parts.append(run)
        parts.append(mk("byte", b))
        run = b""
    parts.append(run)
    try:
        return [(st, ok(E, dt, S(*[p.decode() if type(p) is bytes else p for p in parts])))]
    except UnicodeDecodeError:
        return None


# ---------------------------------------------------------------- mutable access to sequences
def known(v):
    return v.op == "seq" and all(p.op == "e" for p in v.a)


def expand(v, limit=2000):
    """a sequence with every literal repetition written out, or None"""
    if v.op != "seq":
        return None
    out = []
    for p in v.a:
        if p.op == "e":
            out.append(p)
        elif p.op == "rep" and p.a[1].op == "i" and p.a[1].a[0] <= limit:
            out += [mk("e", p.a[0])] * max(0, p.a[1].a[0])
        else:
            return None
    return out


@model(r"^core::slice::iter_mut$", r"^<&mut .* as std::iter::IntoIterator>::into_iter$", r"^core::slice::iter::iter_mut$")
def m_itermut(E, st, f, vals, at, dt, fr, uid):
    loc = target(E, st, vals[0]) if vals[0].op == "ref" else None
    if loc is None:
        return None
    v = E.load(st, loc)
    ps = expand(v)
    if ps is None or loc[0][0] == "V":
        return None
    st = st.copy()
    E.store(st, loc, seq(*ps))
    return [(st, mk("it", "val", seq(*[mk("e", mk("ref", loc[0], loc[1] + (("ix", I(k)),))) for k in range(len(ps))]), I(0)))]


@model(r"^core::slice::(get_mut|first_mut|last_mut)$")
def m_getmut(E, st, f, vals, at, dt, fr, uid):
    loc = target(E, st, vals[0]) if vals[0].op == "ref" else None
    if loc is None:
        return None
    v = E.load(st, loc)
    if v.op != "seq":
        return None
    which = f.sname.split("::")[-1]
    n = E.length(v)
    i = vals[1] if which == "get_mut" else I(0) if which == "first_mut" else sub(n, I(1))
    if i.op == "adt":
        return None
    out = []
    for tr, s in E.fork(st, E.cond_in(sub(n, i), iv(1, INF)) if which == "get_mut" else E.cond_in(n, iv(1, INF))):
        out.append((s, some(E, dt, mk("ref", loc[0], loc[1] + (("ix", i),))) if tr else none(E, dt)))
    return out


@model(r"^core::slice::(copy_from_slice|clone_from_slice)$", r"^core::slice::specialize::clone_from_slice$")
def m_copyslice(E, st, f, vals, at, dt, fr, uid):
    loc = target(E, st, vals[0]) if vals[0].op == "ref" else None
    w = dv(E, st, vals[1])
    if loc is None or loc[0][0] == "V" or w.op != "seq":
        return None
    v = E.load(st, loc)
    out = []
    for tr, s in E.fork(st, E.cond_in(sub(E.length(v), E.length(w)), iv(0, 0))):
        if not tr:
            E.panic(s, "copy between slices of different lengths", fr, None)
            continue
        s = s.copy()
        E.store(s, loc, w)
        out.append((s, UNIT))
    return out


@model(r"^core::slice::fill$", r"^core::slice::specialize::spec_fill$", r"^<\[.*\] as core::slice::specialize::SpecFill>::spec_fill$")
def m_fill(E, st, f, vals, at, dt, fr, uid):
    loc = target(E, st, vals[0]) if vals[0].op == "ref" else None
    if loc is None or loc[0][0] == "V":
        return None
    v = E.load(st, loc)
    if v.op != "seq":
        return None
    st = st.copy()
    E.store(st, loc, seq(mk("rep", vals[1], E.length(v))))
    return [(st, UNIT)]


@model(r"^core::slice::(swap|reverse)$")
def m_swapel(E, st, f, vals, at, dt, fr, uid):
    loc = target(E, st, vals[0]) if vals[0].op == "ref" else None
    if loc is None or loc[0][0] == "V":
        return None
    ps = expand(E.load(st, loc))
    if ps is None:
        return None
    if f.sname.endswith("reverse"):
        ps.reverse()
    else:
        i, j = vals[1], vals[2]
        if i.op != "i" or j.op != "i" or max(i.a[0], j.a[0]) >= len(ps):
            return None
        ps[i.a[0]], ps[j.a[0]] = ps[j.a[0]], ps[i.a[0]]
    st = st.copy()
    E.store(st, loc, seq(*ps))
    return [(st, UNIT)]


@model(r"^std::vec::Vec::(insert|remove|swap_remove|split_off|drain)$", r"^std::collections::VecDeque::(push_back|pop_front)$")
def m_vecedit(E, st, f, vals, at, dt, fr, uid):
    op = f.sname.split("::")[-1]
    loc = target(E, st, vals[0]) if vals[0].op == "ref" else None
    if loc is None:
        return None
    v = E.load(st, loc)
    ps = expand(v)
    if ps is None:
        return None
    st = st.copy()
    if op == "push_back":
        E.store(st, loc, seq(*ps, mk("e", vals[1])))
        return [(st, UNIT)]
    if op == "pop_front":
        if not ps:
            return [(st, none(E, dt))]
        E.store(st, loc, seq(*ps[1:]))
        return [(st, some(E, dt, ps[0].a[0]))]
    if op == "drain":
        b = range_bounds(E, seq(*ps), vals[1]) if vals[1].op == "adt" else None
        if b is None or b[0].op != "i" or b[1].op != "i":
            return None
        lo, hi = b[0].a[0], b[1].a[0]
        if not 0 <= lo <= hi <= len(ps):
            E.panic(st, "drain out of bounds", fr, None)
            return []
        E.store(st, loc, seq(*ps[:lo], *ps[hi:]))
        return [(st, mk("it", "val", seq(*ps[lo:hi]), I(0)))]
    i = vals[1]
    if i.op != "i":
        return None
    k = i.a[0]
    if not 0 <= k <= len(ps) - (op in ("remove", "swap_remove")):
        E.panic(st, op + " out of bounds", fr, None)
        return []
    if op == "insert":
        ps.insert(k, mk("e", vals[2]))
        r = UNIT
    elif op == "split_off":
        r = seq(*ps[k:])
        ps = ps[:k]
    else:
        r = ps[k].a[0]
        if op == "swap_remove":
            ps[k] = ps[-1]
            ps.pop()
        else:
            ps.pop(k)
    E.store(st, loc, seq(*ps))
    return [(st, r)]


@model(r"^std::vec::Vec::retain(_mut)?$")
def m_retain(E, st, f, vals, at, dt, fr, uid):
    loc = target(E, st, vals[0]) if vals[0].op == "ref" else None
    ps = expand(E.load(st, loc)) if loc is not None else None
    if ps is None:
        return None
    import iters
    T = iters.It(E, fr, uid)
    live = [(st, vals[1], ())]
    for p in ps:
        nxt = []
        for s, fn, keep in live:
            for s2, nf, r in T.apply(s, fn, [mk("ref", ("V", p.a[0]), ())]):
                for tr, s3 in E.fork(s2, r):
                    nxt.append((s3, nf, keep + (p,) if tr else keep))
        live = nxt
    out = []
    for s, fn, keep in live:
        s = s.copy()
        E.store(s, loc, seq(*keep))
        out.append((s, UNIT))
    return out


@model(r"^core::slice::(split_first|split_last)$")
def m_splitfirst(E, st, f, vals, at, dt, fr, uid):
    v = dv(E, st, vals[0])
    ps = expand(v)
    if ps is None:
        return None
    if not ps:
        return [(st, none(E, dt))]
    w = lambda x: mk("ref", ("V", x), ())
    if f.sname.endswith("first"):
        return [(st, some(E, dt, mk("tup", w(ps[0].a[0]), w(seq(*ps[1:])))))]
    return [(st, some(E, dt, mk("tup", w(ps[-1].a[0]), w(seq(*ps[:-1])))))]


@model(r"^core::slice::(split_at|split_at_checked)$")
def m_splitat(E, st, f, vals, at, dt, fr, uid):
    v = dv(E, st, vals[0])
    if v.op != "seq":
        return None
    b = split_at(E, st, v, vals[1])
    if b is None:
        return None
    r = mk("tup", *[mk("ref", ("V", seq(*x)), ()) for x in b])
    return [(st, some(E, dt, r) if f.sname.endswith("checked") else r)]


@model(r"^core::slice::(chunks|windows|chunks_exact)$")
def m_chunks(E, st, f, vals, at, dt, fr, uid):
    ps = expand(dv(E, st, vals[0]))
    n = vals[1]
    if ps is None or n.op != "i" or n.a[0] <= 0:
        return None
    n = n.a[0]
    what = f.sname.split("::")[-1]
    if what == "windows":
        gs = [ps[k:k + n] for k in range(len(ps) - n + 1)]
    else:
        gs = [ps[k:k + n] for k in range(0, len(ps), n)]
        if what == "chunks_exact":
            gs = [g for g in gs if len(g) == n]
    return [(st, mk("it", "val", seq(*[mk("e", mk("ref", ("V", seq(*g)), ())) for g in gs]), I(0)))]


# ---------------------------------------------------------------- map entries
@model(r"^std::collections::HashMap::entry$", r"^std::collections::BTreeMap::entry$")
def m_entry(E, st, f, vals, at, dt, fr, uid):
    loc = target(E, st, vals[0])
    if loc is None:
        return None
    m = E.load(st, loc)
    k = norm_key(E, st, vals[1])
    out = []
    for s, r in map_cases(E, st, m, k):
        if r[0] == "maybe":
            return None
        out.append((s, mk("adt", dt, E.P.variant(dt, "Occupied" if r[0] == "yes" else "Vacant"), mk("mapent", loc[0], loc[1], k))))
    return out


@model(r"(Occupied|Vacant)Entry::(get|get_mut|into_mut|insert|insert_entry|key|into_key|remove|remove_entry)$")
def m_entryop(E, st, f, vals, at, dt, fr, uid):
    e = dv(E, st, vals[0])
    if e.op != "mapent":
        return None
    loc, k = (e.a[0], e.a[1]), e.a[2]
    op = f.sname.split("::")[-1]
    m = E.load(st, loc)
    if op in ("key",):
        return [(st, ref(k))]
    if op == "into_key":
        return [(st, k)]
    if op in ("get", "get_mut", "into_mut"):
        return [(st, mk("ref", loc[0], loc[1] + (("mk", k, pointee_ty1(E, dt)),)))]
    st = st.copy()
    old = map_find(E, m, k)
    if op == "insert":
        E.store(st, loc, map_insert(m, k, vals[1]))
        if "Vacant" in f.sname:
            return [(st, mk("ref", loc[0], loc[1] + (("mk", k, pointee_ty1(E, dt)),)))]
        return [(st, old[1])] if old[0] == "yes" else None
    if op == "remove" and old[0] == "yes":
        E.store(st, loc, mk("map", m.a[0], *[x for x in m.a[1:] if x.a[0] is not k]))
        return [(st, old[1])]
    return None


@model(r"^std::collections::Hash(Map|Set)::(remove|take)$", r"^std::collections::BTree(Map|Set)::remove$")
def m_mapremove(E, st, f, vals, at, dt, fr, uid):
    loc = target(E, st, vals[0])
    m = E.load(st, loc)
    k = norm_key(E, st, vals[1])
    if m.op != "map" or m.a[0] != "empty":
        return None
    out = []
    for s, r in map_cases(E, st, m, k):
        if r[0] == "maybe":
            return None
        if r[0] == "yes":
            s = s.copy()
            rest = [x for x in m.a[1:] if x.a[0] is not k]
            if len(rest) == len(m.a) - 1:
                hit = [x for x in m.a[1:] if E.decide(s, keyeq(E, x.a[0], k) or FALSE) is True]
                if len(hit) != 1:
                    return None
                rest = [x for x in m.a[1:] if x is not hit[0]]
            E.store(s, loc, mk("map", "empty", *rest))
        if E.T[dt]["k"] == "bool":
            out.append((s, I(int(r[0] == "yes"))))
        else:
            out.append((s, some(E, dt, r[1]) if r[0] == "yes" else none(E, dt)))
    return out


def literal_key(v):
    """a sortable value for a known integer, string or tuple of such; None when it is not known"""
    if v.op == "ref" and v.a[0][0] == "V":
        return literal_key(v.a[0][1]) if not v.a[1] else None
    if v.op == "i":
        return (0, v.a[0])
    if v.op == "S":
        l = lit(v)
        return None if l is None else (1, l.encode())
    if v.op == "tup":
        ks = tuple(literal_key(x) for x in v.a)
        return None if any(k is None for k in ks) else (2,) + ks
    return None


@model(r"^core::slice::sort(_unstable)?(_by|_by_key|_by_cached_key)?$", r"^std::slice::sort(_by|_by_key|_by_cached_key)?$", r"^alloc::slice::sort(_by|_by_key|_by_cached_key)?$")
def m_sort(E, st, f, vals, at, dt, fr, uid):
    """sorting a sequence of known elements by keys that are known, or by a comparison that is decided; stable"""
    import iters
    loc = target(E, st, vals[0]) if vals[0].op == "ref" else None
    ps = expand(E.load(st, loc)) if loc is not None else None
    if ps is None:
        return None
    T = iters.It(E, fr, uid)
    n = f.sname.split("::")[-1].replace("_unstable", "")
    if n == "sort":
        ks = [literal_key(p.a[0]) for p in ps]
        if any(k is None for k in ks):
            return None
    elif n == "sort_by":
        live = [p.a[0] for p in ps]
        fn = vals[1]
        out = []
        for x in live:
            at_ = len(out)
            while at_ > 0:
                rs = T.apply(st, fn, [mk("ref", ("V", out[at_ - 1]), ()), mk("ref", ("V", x), ())])
                if len(rs) != 1 or rs[0][2].op != "adt":
                    return None
                st, fn, r = rs[0]
                if E.P.vname(r.a[0], r.a[1]) != "Greater":
                    break
                at_ -= 1
            out.insert(at_, x)
        st = st.copy()
        E.store(st, loc, seq(*[mk("e", x) for x in out]))
        return [(st, UNIT)]
    else:
        ks, fn = [], vals[1]
        for p in ps:
            rs = T.apply(st, fn, [mk("ref", ("V", p.a[0]), ())])
            if len(rs) != 1:
                return None
            st, fn, r = rs[0]
            k = literal_key(E.snapshot(st, dv(E, st, r)))
            if k is None:
                return None
            ks.append(k)
    ps = [p for _, p in sorted(zip(ks, ps), key=lambda q: q[0])]
    st = st.copy()
    E.store(st, loc, seq(*ps))
    return [(st, UNIT)]


@model(r"^std::collections::(Hash|BTree)(Map|Set)::retain$")
def m_mapretain(E, st, f, vals, at, dt, fr, uid):
    import iters
    loc = target(E, st, vals[0]) if vals[0].op == "ref" else None
    m = E.load(st, loc) if loc is not None else None
    if m is None or m.op != "map" or m.a[0] != "empty":
        return None
    ents = list(m.a[1:])
    ks = [e.a[0] for e in ents]
    if not all(distinct(x, y, E, st) for i, x in enumerate(ks) for y in ks[:i]):
        return None
    T = iters.It(E, fr, uid)
    if len(ents) > 1 and "Hash" in f.sname:
        E.hash_iterations.add((fr.fn.name if fr is not None else "?"))
        ents = E.hash_order(ents)
    live = [(st, vals[1], ())]
    for e in ents:
        nxt = []
        for s, fn, keep in live:
            o = ("X", "mapretain", T.tick())
            s = s.copy()
            s.mem[o] = e.a[1]
            args = [ref(e.a[0])] + ([] if "Set" in f.sname else [mk("ref", o, ())])
            for s2, nf, r in T.apply(s, fn, args):
                for tr, s3 in E.fork(s2, r):
                    s3 = s3.copy()
                    v = s3.mem.pop(o, e.a[1])
                    nxt.append((s3, nf, keep + (mk("ent", e.a[0], v),) if tr else keep))
        live = nxt
    out = []
    for s, fn, keep in live:
        order = {k.id: i for i, k in enumerate(ks)}
        s = s.copy()
        E.store(s, loc, mk("map", "empty", *sorted(keep, key=lambda x: order[x.a[0].id])))
        out.append((s, UNIT))
    return out


@model(r"^<std::ops::Range as std::iter::Iterator>::step_by$")
def m_rangestep(E, st, f, vals, at, dt, fr, uid):
    r, n = vals
    if r.op != "adt" or n.op != "i" or n.a[0] <= 0 or any(x.op != "i" for x in r.a[2:4]):
        return None
    names = [x[0] for x in E.T[dt]["variants"][0]["fields"]]
    lo, hi = r.a[2].a[0], r.a[3].a[0]
    new = {"iter": mk("adt", r.a[0], r.a[1], I(lo), I(max(0, -((lo - hi) // n.a[0])))), "step_minus_one": I(n.a[0] - 1), "first_take": I(1)}
    return [(st, mk("adt", dt, 0, *[new[x] for x in names]))] if set(names) == set(new) else None


def fround(x):
    import math
    return math.copysign(math.floor(abs(x) + 0.5) if abs(x) < 2 ** 52 and abs(x) != 0.49999999999999994 else math.floor(abs(x)), x)


@model(r"^(std|core)::(f32|f64)::(<impl f(32|64)>::)?(round|floor|ceil|trunc|abs|min|max|clamp)$", r"^(std|core)::intrinsics::(round|floor|ceil|trunc|abs)$")
def m_float(E, st, f, vals, at, dt, fr, uid):
    import math
    from engine import fvalue, fconst
    n = f.sname.split("::")[-1]
    if not all(v.op == "f" for v in vals):
        return [(st, mk("fop", n, *vals))]
    x = [fvalue(v) for v in vals]
    if any(y != y or abs(y) == math.inf for y in x):
        return None
    fn = {"round": fround, "floor": lambda a: float(math.floor(a)), "ceil": lambda a: float(math.ceil(a)), "trunc": lambda a: float(math.trunc(a)), "abs": abs, "min": min, "max": max,
          "clamp": lambda a, b, c: max(b, min(a, c))}.get(n)
    r = fconst(vals[0].a[0], fn, *x) if fn else None
    return [(st, r)] if r is not None else None


import iters
iters.register(__import__("sys").modules[__name__])
